"""Entry point: decide one property on /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--list] [-v]
"""
import argparse
import importlib
import json
import os
import pkgutil
import sys
import time
import warnings

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
REPO = os.environ.get('VERIF_REPO', '/repo')

from sa.program import Program, AnalysisError           # noqa: E402
from sa import spec as sp                               # noqa: E402
from sa import unknown                                   # noqa: E402
from sa import compare as cmp                           # noqa: E402
from sa.interp import Unsupported, Dead                 # noqa: E402
from sa import terms as tm                               # noqa: E402
from sa.terms import show                               # noqa: E402

EXTRA = ['recipes/aud/utils/%s.py' % x for x in (
    'ter', 'score_boundaries', 'nmi', 'ali2trans', 'convert_align',
    'entropy_rate', 'maptrans', 'maxoverlap_mapping', 'add_prefix',
    'prepare_phone_trans', 'prepare_lang_aud')]


class Finding:
    """one reported construct"""
    def __init__(self, obligation, where, text, signature=''):
        self.obligation, self.where, self.text = obligation, where, text
        self.signature = signature


class Result:
    def __init__(self):
        self.violations = []
        self.proved = []        # (obligation id, note)
        self.undecided = []     # (obligation id, reason)
        self.counts = {}
        self.functions = set()

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n


def load_vocab():
    with open(os.path.join(HERE, 'vocabulary.json')) as f:
        return set(json.load(f))


def load_known():
    out = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding:'):
                d = {}
                rest = ln[len('finding:'):].strip()
                for k in ('property', 'obligation', 'signature'):
                    tok, _, rest = rest.partition(' ')
                    a, _, b = tok.partition('=')
                    d[a] = b
                d['what'] = rest
                out.append(d)
    return out


def smaller(e, count=[0]):
    """many oversized obligations: spend less on each"""
    if isinstance(e, (tm.Budget, MemoryError)):
        count[0] += 1
        if count[0] == 8:
            sp.BUDGET //= 4


def check_obligation(P, o, vocab, res, refs, prop=None):
    o_kind = sp.find_target(P, o.target)
    if o_kind is None and sp.is_private(o.target):
        res.undecided.append((o.id, 'internal helper is gone; the operations '
                              'that used it are compared'))
        return
    if o_kind is None:
        res.violations.append(Finding(o.id, o.target.split(':')[0],
                                      f'{o.target}: the operation no longer '
                                      'exists'))
        return
    kind, node, module, owner, rcls = o_kind
    names = sp.params_of(o.node)
    if kind == 'staticmethod' and names and names[0] in ('self', 'cls'):
        names = names[1:]
    ps = sp.params_of(node)
    loc = (module.path, node.lineno)
    contexts = o.opts.get('contexts', [{}])
    observe = o.opts.get('observe', ('result', 'mem', 'events'))
    if isinstance(observe, str):
        observe = (observe,)
    view = o.views.get(prop)
    if view is not None:
        observe = tuple(x for x in observe if x in view)
    rk = kind if kind not in ('abstract', 'abstract-property') else 'method'
    defaults_checked = False
    all_ok = True
    for ctx in contexts:
        tag = o.id + (str(ctx) if len(contexts) > 1 else '')
        try:
            open_kw = o.node.args.kwarg is not None
            ref = sp.run(P, rk, o.node, o.module, owner, rcls, o.opts, names,
                         ctx, open_kw, refs)
        except (Unsupported, Dead, RecursionError, tm.Budget,
                MemoryError) as e:
            res.undecided.append((tag, f'reference: {e}'))
            smaller(e)
            all_ok = False
            continue
        if 'top' in ref.flags():
            res.undecided.append((tag, 'reference is not analysable: ' +
                                  '; '.join(reasons(ref))))
            all_ok = False
            continue
        if len(ps) != len(names) and node.args.vararg is None:
            # extra parameters must have defaults
            nd = len(node.args.defaults)
            if len(ps) < len(names) or len(ps) - len(names) > nd:
                res.violations.append(Finding(
                    tag, '%s:%d' % loc, f'{loc[0]}:{loc[1]}: {o.target} no '
                    f'longer accepts ({", ".join(names)})'))
                all_ok = False
                break
        try:
            code = sp.run(P, rk, node, module, owner, rcls, o.opts,
                          names, ctx, open_kw)
        except (Unsupported, Dead, RecursionError, tm.Budget,
                MemoryError) as e:
            res.undecided.append((tag, str(e)))
            smaller(e)
            all_ok = False
            continue
        res.functions.add(o.target)
        res.functions |= code.interp.inlined
        diffs = cmp.compare(code, ref, loc, observe)
        res.count('value-number comparisons')
        if not diffs:
            continue
        all_ok = False
        bad = []
        if 'top' in code.flags():
            bad = reasons(code)
        newv = cmp.vocabulary(code) - cmp.vocabulary(ref) - vocab
        newv = unknown.unexcused(P, code, ref, newv, observe)
        if newv:
            bad.append('operations outside the vocabulary: ' +
                       ', '.join(sorted(newv)))
        if bad:
            res.undecided.append((tag, '; '.join(bad)[:400]))
            continue
        text = '\n'.join(f'{o.target} {ctx or ""}\n  ' + d.text() for d in diffs)
        res.violations.append(Finding(o.id, '%s:%d' % (diffs[0].loc or loc),
                                      text, cmp.signature(code)))
    if not defaults_checked and o.node.args.defaults and all_ok and \
            len(ps) == len(names):
        rd = sp.default_terms(P, o.node, o.module, None, names)
        cd = sp.default_terms(P, node, module, owner, names)
        for n, t in rd.items():
            if n in cd and cd[n] is not t or n not in cd:
                all_ok = False
                res.violations.append(Finding(
                    o.id, '%s:%d' % loc,
                    f'{loc[0]}:{loc[1]}: {o.target}: default of "{n}" is ' +
                    (show(cd[n]) if n in cd else 'absent') +
                    f', must be {show(t)}', 'default ' + n))
    if all_ok:
        res.proved.append((o.id, f'{len(contexts)} context(s)'))


def reasons(S):
    from sa import terms as tm
    out = set()
    for t in [S.result] + [x for p in S.mem for x in p] + \
            [x for g, t, _ in S.events for x in (g, t)]:
        if 'top' in t.flags:
            for x in tm.walk(t):
                if x.op == 'top':
                    out.add(str(x.args[0]))
    return sorted(out)


RULES = {}


def rule(*props):
    def deco(f):
        for p in props:
            RULES.setdefault(p, []).append(f)
        return f
    return deco


def load_rules():
    import sa.check as me
    from sa import rules
    for m in pkgutil.iter_modules(rules.__path__):
        importlib.import_module('sa.rules.' + m.name)
    return me.RULES


def absorbed(P, o, every, vocab, refs, cache):
    """is the change of an internal helper invisible to its callers?"""
    name = o.target.rsplit('.', 1)[-1].rsplit(':', 1)[-1]
    r = sp.find_target(P, o.target)
    q = r[3].qual + '.' + r[1].name if r[3] is not None else \
        r[2].name + ':' + r[1].name
    used = False
    for x in every:
        if x is o or sp.is_private(x.target):
            continue
        m = P.modules.get(x.target.split(':')[0])
        k = sp.find_target(P, x.target)
        if k is None:
            return False
        if not any(name in (P.modules[n].src or "") for n in
                   {x.target.split(':')[0], k[2].name}):
            continue
        if x not in cache:
            t = Result()
            check_obligation(P, x, vocab, t, refs)
            cache[x] = t
        t = cache[x]
        if q in t.functions:
            used = True
            if t.violations or t.undecided:
                return False
    return used


def decide(prop, P, tier='quick', only=None):
    res = Result()
    vocab = load_vocab()
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    P.obligations = every
    obs = [o for o in every if prop in o.props]
    cache = {}
    refs = sp.helper_refs(P, every)
    for o in obs:
        if only and only not in o.id:
            continue
        n = len(res.violations)
        check_obligation(P, o, vocab, res, refs, prop)
        if len(res.violations) > n and sp.is_private(o.target) and \
                absorbed(P, o, every, vocab, refs, cache):
            del res.violations[n:]
            res.undecided.append((o.id, 'internal helper differs from its '
                                  'reference, but every operation that uses '
                                  'it has its reference value'))
    res.count('reference obligations', len(obs))
    for f in load_rules().get(prop, []):
        if only and only not in f.__name__:
            continue
        f(P, res, tier)
        res.count('structural rules')
    return res, len(obs)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--only')
    a = ap.parse_args()
    t0 = time.time()
    try:
        P = Program(REPO, ('beer',), EXTRA)
        res, nobs = decide(a.prop, P, a.tier, a.only)
        if not nobs and not load_rules().get(a.prop):
            raise AnalysisError('no rule for property ' + a.prop)
    except AnalysisError as e:
        print('ANALYSIS-ERROR', e)
        sys.exit(3)
    known = load_known()
    viol, kf = [], []
    for v in res.violations:
        k = [d for d in known if d['property'] == a.prop and
             d['obligation'] == v.obligation and
             d['signature'] == (v.signature or '-')]
        (kf if k else viol).append((v, k[0]['what'] if k else ''))
    rdir = os.path.join(os.environ.get('VERIF_EVIDENCE') or
                        os.path.join(VERIF, 'evidence'), 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(a.prop + '-'):
            os.remove(os.path.join(rdir, f))
    seen = set()
    for v, what in kf:
        if (v.obligation, v.signature) not in seen:
            seen.add((v.obligation, v.signature))
            print(f'KNOWN-FINDING: property={a.prop} {v.obligation}: {what}')
    paths = []
    for i, (v, _) in enumerate(viol):
        p = os.path.join(rdir, f'{a.prop}-{i}.txt')
        with open(p, 'w') as f:
            f.write(f'property {a.prop}\nobligation {v.obligation}\n'
                    f'at {v.where}\nsignature {v.signature}\n\n{v.text}\n')
        paths.append(p)
        print(f'{v.where}: {v.obligation}')
        if a.v:
            print(v.text)
            print('signature', v.signature)
        print(f'VIOLATION property={a.prop} replay={p}')
    if a.v:
        for x in res.proved:
            print('held', x)
        for x in res.undecided:
            print('undecided', x)
    write_evidence(a.prop, a.tier, res, viol, kf, time.time() - t0, nobs)
    print(f'{a.prop}: {len(res.proved)} obligations held, {len(viol)} violated, '
          f'{len(kf)} known, {len(res.undecided)} undecided')
    sys.exit(1 if viol else 0)


def write_evidence(prop, tier, res, viol, kf, wall, nobs):
    path = os.path.join(os.environ.get('VERIF_EVIDENCE') or
                        os.path.join(VERIF, 'evidence'), prop + '.json')
    ev = {
        'property': prop, 'tier': tier,
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'coverage': {
            'explanation':
                'Static analysis of /repo source: value-number comparison of '
                'each listed operation with its reference definition (all '
                'inputs, all branches, loops closed symbolically), plus the '
                'structural rules counted below. Nothing is executed.',
            'obligations_held': [x[0] for x in res.proved],
            'obligations_undecided': [list(x) for x in res.undecided],
            'functions_analysed': sorted(res.functions),
            'n_functions': len(res.functions),
            'counts': res.counts,
        },
        'assumptions': [
            'torch/numpy/stdlib operations behave as documented',
            'calls on receivers of unknown class are ordered only against '
            'accesses their by-name modification/reference summary conflicts with',
        ],
        'wall_s': round(wall, 3),
        'violations': [{'obligation': v.obligation, 'where': v.where,
                        'detail': v.text[:2000]} for v, _ in viol] +
                      [{'known': True, 'obligation': v.obligation,
                        'where': v.where, 'detail': w} for v, w in kf],
    }
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    from sa.check import main as m
    m()

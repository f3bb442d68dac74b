"""Write properties.jsonl and MANIFEST.json from the table in props_table.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
from props_table import PROPS, NOT_APPLICABLE        # noqa: E402
from sa.check import REPO, EXTRA, load_rules         # noqa: E402
from sa.program import Program                       # noqa: E402
from sa import spec as sp                            # noqa: E402


def prop(p):
    return {
        'id': p['id'], 'title': p['title'], 'statement': p['statement'],
        'quantifier': {'over': p['over'], 'text': p['all']},
        'why_tests_cant': p['why'],
        'anchors': {'files': p['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in p['mech']],
                    'observe_at': p.get('observe', []),
                    'hook_needed': None}}


def main():
    P = Program(REPO, ('beer',), EXTRA)
    obs = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    n = {}
    for o in obs:
        for q in o.props:
            n[q] = n.get(q, 0) + 1
    rules = load_rules()
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for p in PROPS + NOT_APPLICABLE:
            f.write(json.dumps(prop(p)) + '\n')
    checks, na = [], []
    for p in PROPS:
        i = p['id']
        if not n.get(i) and not rules.get(i):
            na.append({'property': i, 'reason': 'no check yet'})
            continue
        t = []
        if n.get(i):
            t.append('static value-number equivalence with reference definitions')
        if rules.get(i):
            t.append(p.get('rule', 'structural dataflow rules'))
        checks.append({
            'property': i,
            'quick_cmd': f'python3 sa/check.py {i} --tier quick',
            'thorough_cmd': f'python3 sa/check.py {i} --tier thorough',
            'technique': 'static analysis: ' + ' + '.join(t),
            'level': 'other',
            'level_note': p.get('note', NOTE)})
    na += [{'property': p['id'], 'reason': p['reason']} for p in NOT_APPLICABLE]
    m = {'version': 1, 'setup_cmd': 'python3 -c "import ast, sys; '
         'assert sys.version_info >= (3, 10)"',
         'checks': checks, 'not_applicable': na,
         'notes': 'All checks are pure static analysis over /repo source '
                  '(stdlib ast only); nothing of beer is imported or run. No '
                  'hooks are needed in /repo.'}
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    design(PROPS, obs, rules)
    print(len(PROPS), 'properties,', len(checks), 'checks;',
          [x['property'] for x in na])


def design(props, obs, rules):
    from how import HOW
    rows = ['| id | property | decided by | obligations |', '|---|---|---|---|']
    for p in props:
        i = p['id']
        k = sum(1 for o in obs if i in o.props)
        r = len(rules.get(i, ()))
        rows.append(f"| {i} | {p['title']} | {HOW[i]} | {k}" +
                    (f' + {r} rule(s)' if r else '') + ' |')
    with open(os.path.join(HERE, 'design.in')) as f:
        s = f.read()
    rr = []
    for q in sorted({f for fs in rules.values() for f in fs},
                    key=lambda f: f.__name__):
        m = sys.modules[q.__module__]
        if m.__name__.endswith('.decl'):
            continue
        who = ' '.join(sorted(k for k, fs in rules.items() if q in fs))
        doc = ' '.join((q.__doc__ or '').split())
        rr.append(f"| `{m.__name__.split('.')[-1]}.py` {q.__name__} | {who} | {doc} |")
    s = s.replace('@@RULES@@\n', '\n'.join(rr) + '\n' if rr else '')
    s = s.replace('@@PROPS@@', '\n'.join(rows))
    c = os.path.join(HERE, 'catch.md')
    s = s.replace('@@CATCH@@', open(c).read() if os.path.exists(c) else '')
    with open(os.path.join(VERIF, 'DESIGN.md'), 'w') as f:
        f.write(s)


NOTE = ('Every listed operation is abstractly interpreted from its source for '
        'all inputs and branches and its result, writes and ordered external '
        'effects are compared, after algebraic normalisation, with a reference '
        'definition. Trusts the documented meaning of torch/numpy operations; '
        'real-number algebra (no rounding). Code the engine cannot decide is '
        'reported as undecided in the evidence, never as a violation.')

if __name__ == '__main__':
    main()

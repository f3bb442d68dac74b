"""Which functions of /repo no obligation targets or inlines. Development aid."""
import ast, json, glob, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa.check import REPO, EXTRA
from sa.program import Program
P = Program(REPO, ('beer',), EXTRA)
seen = set()
for f in glob.glob('/verif/evidence/P*.json'):
    seen |= set(json.load(open(f))['coverage']['functions_analysed'])
n = t = 0
for mn, m in sorted(P.modules.items()):
    miss = []
    for s in m.tree.body:
        fs = [(s.name, s)] if isinstance(s, ast.FunctionDef) else \
            [(s.name + '.' + f.name, f) for f in s.body
             if isinstance(f, ast.FunctionDef)] if isinstance(s, ast.ClassDef) else []
        for q, f in fs:
            t += 1
            if mn + ':' + q not in seen:
                miss.append('%s(%d)' % (q, len(f.body))); n += 1
    if miss:
        print(mn, ':', ' '.join(miss))
print(n, 'of', t, 'not covered')

"""Functions of /repo that are no obligation's target. Development aid."""
import ast, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa.check import REPO, EXTRA
from sa.program import Program
from sa import spec as sp
P = Program(REPO, ('beer',), EXTRA)
mods = dict(P.modules)
T = set()
for o in sp.load_specs(P, '/verif/specs'):
    r = sp.find_target(P, o.target)
    if r: T.add(r[1])
n = 0
for mn, m in sorted(mods.items()):
    if mn.startswith('spec_') or mn == 'beer.vbi': continue
    miss = []
    for s in m.tree.body:
        fs = [(s.name, s)] if isinstance(s, ast.FunctionDef) else \
            [(s.name + '.' + f.name, f) for f in s.body
             if isinstance(f, ast.FunctionDef)] if isinstance(s, ast.ClassDef) else []
        for q, f in fs:
            if f not in T and not any(isinstance(d, ast.Attribute) and d.attr.startswith('abstract') for d in f.decorator_list) :
                miss.append('%s(%d)' % (q, len(f.body))); n += 1
    if miss:
        print(mn, ':', ' '.join(miss))
print(n)

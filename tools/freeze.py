"""Draft a spec file for one module of /repo: one reference per function,
to be reviewed and rewritten by hand.  Development aid only.

usage: freeze.py MODULE PROPS [NAME...]"""
import ast
import builtins
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa.check import REPO, EXTRA
from sa.program import Program


def strip_doc(f):
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) \
            and isinstance(b[0].value.value, str):
        f.body = b[1:] or [ast.Pass()]


def main(mod, props, names):
    P = Program(REPO, ('beer',), EXTRA)
    m = P.modules[mod]
    glob = {}
    for s in m.tree.body:
        if isinstance(s, ast.Import):
            for a in s.names:
                glob[(a.asname or a.name).split('.')[0]] = 'import ' + a.name + (
                    ' as ' + a.asname if a.asname else '')
        elif isinstance(s, ast.ImportFrom):
            base = s.module or ''
            if s.level:
                parts = mod.split('.')
                if not m.path.endswith('__init__.py'):
                    parts = parts[:-1]
                parts = parts[:len(parts) - (s.level - 1)]
                base = '.'.join(parts + ([s.module] if s.module else []))
            for a in s.names:
                glob[a.asname or a.name] = f'from {base} import {a.name}' + (
                    ' as ' + a.asname if a.asname else '')
        elif isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            glob[s.name] = f'from {mod} import {s.name}'
        elif isinstance(s, ast.Assign):
            for t in s.targets:
                if isinstance(t, ast.Name):
                    glob[t.id] = f'from {mod} import {t.id}'
    out, used = [], set()

    def emit(f, target):
        decos = [d for d in f.decorator_list]
        f.decorator_list = []
        strip_doc(f)
        for x in ast.walk(f):
            if isinstance(x, ast.Name):
                used.add(x.id)
        name, f.name = f.name, '_'
        out.append(f"@spec({props!r}, {target!r})\n" + ast.unparse(f))
        f.name = name

    for s in m.tree.body:
        if isinstance(s, ast.FunctionDef) and (not names or s.name in names):
            emit(s, f'{mod}:{s.name}')
        if isinstance(s, ast.ClassDef):
            for f in s.body:
                if isinstance(f, ast.FunctionDef) and (
                        not names or s.name in names or
                        f'{s.name}.{f.name}' in names):
                    if any('abstract' in ast.unparse(d)
                           for d in f.decorator_list):
                        continue
                    emit(f, f'{mod}:{s.name}.{f.name}')
    imps = sorted({glob[n] for n in used if n in glob},
                  key=lambda x: (x.startswith('from'), x))
    print('\n'.join(imps))
    print('\n')
    print('\n\n\n'.join(out))


main(sys.argv[1], sys.argv[2], sys.argv[3:])

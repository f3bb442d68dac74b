#!/usr/bin/env python3
"""[--own]: runs every check (its own property's check) on every planted bug (each in a scratch copy of the
repository) and writes tools/catch.md, the table of DESIGN.md section 5."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = '/repo'


def check(prop, tree):
    env = dict(os.environ, VERIF_REPO=tree, VERIF_EVIDENCE=os.path.join(os.path.dirname(tree), 'ev'))
    p = subprocess.run([sys.executable, ROOT + '/sa/check.py', prop], env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    return prop, p.returncode, 'VIOLATION property=%s ' % prop in p.stdout


def main():
    props = [json.loads(l)['id'] for l in open(ROOT + '/properties.jsonl')]
    props = [p for p in props if p.startswith('P')]
    rows = []
    for bug in sorted(os.listdir(ROOT + '/seeded')):
        d = os.path.join(ROOT, 'seeded', bug)
        meta = json.load(open(d + '/meta.json'))
        tmp = tempfile.mkdtemp(prefix='catch-')
        tree = os.path.join(tmp, 'repo')
        try:
            shutil.copytree(REPO, tree, ignore=shutil.ignore_patterns('.git', 'build', '*.egg-info'))
            subprocess.run(['git', 'apply', '--unsafe-paths', '--directory=' + tree.lstrip('/'),
                            d + '/patch.diff'], cwd='/', check=True)
            with ThreadPoolExecutor(8) as ex:
                todo = [meta['property']] if '--own' in sys.argv else props
                got = list(ex.map(lambda p: check(p, tree), todo))
        finally:
            shutil.rmtree(tmp)
        hit = [p for p, rc, v in got if rc == 1 and v]
        bad = [p for p, rc, v in got if rc not in (0, 1)]
        rows.append((bug, meta['property'], meta['what_it_breaks'], hit, bad))
        print(bug, meta['property'], hit, bad, flush=True)
    with open(HERE + '/catch.md', 'w') as f:
        f.write('%d planted bugs in `seeded/`; every check was run on each '
                '(`tools/catch.py`). The bug\'s own property is in bold where its check '
                'reports it.\n\n' % len(rows))
        f.write('| bug | what it breaks | caught by |\n|---|---|---|\n')
        for bug, prop, what, hit, bad in rows:
            c = ', '.join('**%s**' % p if p == prop else p for p in hit)
            if prop not in hit:
                c = 'missed by %s' % prop + (' (%s)' % c if c else '')
            f.write('| %s | %s | %s |\n' % (bug, what, c))


main()

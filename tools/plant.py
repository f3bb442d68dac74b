"""Plant one bug in a scratch copy of /repo, confirm it, and keep it under
/verif/seeded/<id>/.  Development aid.

A description file defines ID, PROPERTY, EDITS = [(path, old, new)], NEEDS,
BREAKS and DEMO (python source; exit status nonzero when broken)."""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# exit 0: behaves as the property says; nonzero: broken
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=
export OMP_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def run(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def plant(path, tests=True):
    d = runpy.run_path(path)
    wt = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(wt, 'repo')
        run(f'cp -a /repo {repo}', '/')
        dd = os.path.join(wt, 'demo')
        os.makedirs(dd)
        open(dd + '/demo.py', 'w').write(d['DEMO'].lstrip())
        open(dd + '/demo.sh', 'w').write(SH)
        os.chmod(dd + '/demo.sh', 0o755)
        r = run(f'timeout 300 {dd}/demo.sh', repo)
        if r.returncode != 0:
            print('DEMO FAILS ON CLEAN TREE\n' + r.stdout[-3000:])
            return 1
        for f, old, new in d['EDITS']:
            s = open(os.path.join(repo, f)).read()
            if s.count(old) != 1:
                print('EDIT', f, 'matches', s.count(old))
                return 1
            open(os.path.join(repo, f), 'w').write(s.replace(old, new))
        r = run(f'timeout 300 {dd}/demo.sh', repo)
        if r.returncode == 0:
            print('DEMO PASSES WITH THE BUG\n' + r.stdout[-2000:])
            return 1
        print('demo with bug:', r.stdout.strip().splitlines()[-1:])
        if tests:
            for s in ('test.sh', 'lib/check_build.py'):
                t = open('/opt/vp/' + s).read().replace('/repo', repo)
                if s == 'test.sh':
                    t = t.replace('seed in 1 2 3 4 5 6 7 8 9 10', 'seed in 1 2')
                open(os.path.join(wt, os.path.basename(s)), 'w').write(t)
            r = run(f'/opt/venv/bin/python {wt}/check_build.py', repo)
            if r.returncode:
                print('BUILD FAILS', r.stdout)
                return 1
            run(f'bash {wt}/test.sh {wt}/out.json', repo)
            out = json.load(open(wt + '/out.json'))
            stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
            ok = set(k for k, v in out.items() if v in ('passed', 'pass', True)) \
                if not isinstance(out.get('passed'), list) else set(out['passed'])
            if stable - ok:
                print('TESTS FAIL', sorted(stable - ok)[:5], str(out)[:300])
                return 1
        dst = os.path.join(VERIF, 'seeded', d['ID'])
        shutil.rmtree(dst, ignore_errors=True)
        os.makedirs(dst)
        diff = run('git diff', repo).stdout
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(os.path.join(dd, f), dst)
        json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'],
                   'what_it_breaks': d['BREAKS']},
                  open(dst + '/meta.json', 'w'), indent=1)
        r = run(f'VERIF_REPO={repo} timeout 900 python3 sa/check.py '
                f'{d["PROPERTY"]}', VERIF)
        print(d['ID'], 'check exit', r.returncode,
              'CAUGHT' if r.returncode == 1 else 'MISSED')
        print('\n'.join(r.stdout.splitlines()[-3:]))
    finally:
        shutil.rmtree(wt)
    return 0


if __name__ == '__main__':
    for p in sys.argv[1:]:
        print('==', p)
        plant(p)

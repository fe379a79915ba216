"""Development only: confirms planted bugs in a scratch copy of the repository and runs the check of their property.

usage: plant.py SPEC.py [id ...]      SPEC.py defines S = [dict(id, prop, file, subs=[(old, new)], needs, breaks, demo)]
Writes seeded/<id>/ if the stable tests pass with the change, and the demo passes without and fails with it."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
skip_check = os.environ.get('NOCHECK')
wt = tempfile.mkdtemp(prefix='kalewt')
subprocess.check_call('git -C /repo archive HEAD | tar -x -C %s' % wt, shell=True)
subprocess.check_call('cd %s && git init -q . && git add -A && git -c user.name=x -c user.email=x@x commit -qm x' % wt, shell=True)
test = open('/opt/vp/test.sh').read().replace('cd /repo', 'cd ' + wt).replace('PYTHONPATH=/opt/vp', 'PYTHONPATH=%s:/opt/vp' % wt)
open(wt + '/../t_%s.sh' % os.path.basename(wt), 'w').write(test)
tsh = '/tmp/t_%s.sh' % os.path.basename(wt)
stable = json.load(open('/opt/vp/BASELINE.json'))
stable = stable.get('stable') or stable.get('passed') or stable.get('tests') or stable
stable = set(stable)
env = dict(os.environ, PYTHONPATH=wt, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', KALEPY_ROOT=wt)
try:
    for s in ns['S']:
        if only and s['id'] not in only:
            continue
        subprocess.check_call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
        d = '/tmp/seedtmp_' + os.path.basename(wt)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        open(d + '/demo.py', 'w').write(s['demo'].lstrip('\n'))
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg OMP_NUM_THREADS=1\n'
                                        'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + '/demo.sh', 0o755)
        a = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, env=env, capture_output=True, text=True)
        ok = True
        for fn, old, new in [x if len(x) == 3 else (s['file'],) + tuple(x) for x in s['subs']]:
            p = wt + '/kalepy/' + fn
            t = open(p).read()
            if t.count(old) != 1:
                print(s['id'], 'BAD SUBST', t.count(old), repr(old))
                ok = False
                break
            open(p, 'w').write(t.replace(old, new))
        if not ok:
            continue
        b = subprocess.run(['bash', d + '/demo.sh'], cwd=wt, env=env, capture_output=True, text=True)
        if a.returncode != 0 or b.returncode == 0:
            print(s['id'], 'DEMO BAD: clean', a.returncode, 'patched', b.returncode, (a.stderr or b.stdout)[-600:])
            continue
        out = d + '/o.json'
        subprocess.run(['bash', tsh, out], capture_output=True, text=True)
        r = json.load(open(out))
        passed = set(r['passed'])
        miss = sorted(stable - passed)
        if miss:
            print(s['id'], 'TESTS FAIL', len(miss), miss[:3])
            continue
        dst = V + '/seeded/' + s['id']
        os.makedirs(dst, exist_ok=True)
        diff = subprocess.run(['git', '-C', wt, 'diff'], capture_output=True, text=True).stdout
        open(dst + '/patch.diff', 'w').write(diff)
        for f in ('demo.py', 'demo.sh'):
            shutil.copy(d + '/' + f, dst + '/' + f)
        json.dump(dict(property=s['prop'], needs=s['needs'], what_it_breaks=s['breaks']), open(dst + '/meta.json', 'w'), indent=1)
        c = subprocess.run([V + '/check.sh', s['prop'], 'quick'], env=dict(env, PYTHONPATH=''), capture_output=True, text=True) if not skip_check else None
        print(s['id'], 'KEPT', '' if c is None else 'CAUGHT' if c.returncode == 1 else 'MISSED %d' % c.returncode,
              '' if c is None else '\n    '.join([x for x in c.stdout.splitlines() if 'VIOLATION' in x][:2] or c.stdout.splitlines()[-4:]), flush=True)
finally:
    subprocess.call(['git', '-C', wt, 'checkout', '-q', '--', '.'])
    shutil.rmtree(wt)
    shutil.rmtree('/tmp/seedtmp_' + os.path.basename(wt), ignore_errors=True)
    os.remove(tsh)

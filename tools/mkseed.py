#!/usr/bin/env python3
"""mkseed.py ID PROPERTY SPEC.py: plant a bug in a scratch copy of /repo, confirm it and store it under seeded/ID.

SPEC.py defines FILE, OLD, NEW (or EDITS=[(file, old, new)...]), DEMO (python source), NEEDS, BREAKS, TESTS (pytest paths).
"""
import json
import os
import subprocess
import sys
import shutil

ID, PROP, SPEC = sys.argv[1:4]
g = {}
exec(open(SPEC).read(), g)
edits = g.get('EDITS') or [(g['FILE'], g['OLD'], g['NEW'])]
W = '/tmp/seedwork'
shutil.rmtree(W, ignore_errors=True)
os.makedirs(W)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.check_call(['cp', '-a', '/repo', W + '/repo'])
R = W + '/repo'
for f, o, n in edits:
    p = R + '/' + f
    s = open(p).read()
    if '@@' in o:      # "context@@n": the n-th occurrence
        o, k = o.rsplit('@@', 1)
        parts = s.split(o)
        k = int(k)
        s = o.join(parts[:k + 1]) + n + o.join(parts[k + 1:])
    else:
        assert s.count(o) == 1, (f, s.count(o), o)
        s = s.replace(o, n)
    open(p, 'w').write(s)
D = '/verif/seeded/' + ID
os.makedirs(D, exist_ok=True)
diff = subprocess.check_output(['git', '-C', R, 'diff']).decode()
open(D + '/patch.diff', 'w').write(diff)
open(D + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
open(D + '/demo.sh', 'w').write('''#!/bin/bash
# run with cwd /repo
export MPLBACKEND=Agg CUDA_VISIBLE_DEVICES= TF_CPP_MIN_LOG_LEVEL=2 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python "$(dirname "$0")/demo.py"
''')
os.chmod(D + '/demo.sh', 0o755)
json.dump({'property': PROP, 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(D + '/meta.json', 'w'), indent=1)
e = dict(os.environ, MPLBACKEND='Agg', CUDA_VISIBLE_DEVICES='', TF_CPP_MIN_LOG_LEVEL='2', PYTHONDONTWRITEBYTECODE='1')
a = subprocess.run([D + '/demo.sh'], cwd='/repo', env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
b = subprocess.run([D + '/demo.sh'], cwd=R, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('demo clean', a.returncode, a.stdout.decode()[-300:])
print('demo bug  ', b.returncode, b.stdout.decode()[-300:])
if g.get('TESTS'):
    e['PYTHONPATH'] = R
    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '-n', '6', '-x'] + g['TESTS'],
                       cwd=R, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    print('tests', t.returncode, t.stdout.decode()[-400:])
c = subprocess.run(['python3', '-B', 'check.py', '--property', PROP], cwd='/verif', env=dict(os.environ, VERIF_REPO=R, VERIF_EVID='/tmp/seedwork/evid'),
                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
print('check', c.returncode, c.stdout.decode()[-700:])
shutil.rmtree(W, ignore_errors=True)

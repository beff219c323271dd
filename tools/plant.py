"""Confirm a planted bug in a scratch copy and keep it under seeded/.

usage: a Python script doing  `from plant import plant; plant(...)`.
The edit is made in a copy of /repo under /tmp, the demonstration is run on
/repo (must exit 0) and on the copy (must not), the stable tests are run on
the copy, and the property's check is run on the copy (VP_REPO)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, cwd, env=None, timeout=1200):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


def plant(name, prop, edits, needs, breaks, demo, check=True):
    d = os.path.join(VERIF, 'seeded', name)
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as f:
        f.write(demo.lstrip('\n'))
    with open(d + '/demo.sh', 'w') as f:
        f.write(DEMO)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': prop, 'needs': needs,
                   'what_it_breaks': breaks}, f, indent=1)
    tmp = tempfile.mkdtemp(prefix='plant_', dir='/tmp')
    wt = os.path.join(tmp, 'repo')
    ok = True
    try:
        subprocess.check_call(['cp', '-a', '/repo', wt])
        for f, old, new in edits:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print(name, 'EDIT MATCHES', s.count(old), f)
                return False
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], wt).stdout
        open(d + '/patch.diff', 'w').write(diff)
        a = sh(['bash', d + '/demo.sh'], '/repo')
        b = sh(['bash', d + '/demo.sh'], wt)
        if a.returncode != 0:
            ok = False
            print(name, 'DEMO FAILS ON CLEAN', a.stdout[-600:])
        if b.returncode == 0:
            ok = False
            print(name, 'DEMO PASSES WITH PATCH', b.stdout[-300:])
        else:
            print(name, 'demo says:', b.stdout.strip().split('\n')[-1][:140])
        t = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                'no:cacheprovider', 'menpofit'], wt,
               env={'PYTHONPATH': wt})
        base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        last = t.stdout.strip().split('\n')[-1]
        if int(last.split(' passed')[0].split()[-1]) < len(base):
            ok = False
            print(name, 'TESTS', last)
        if check:
            c = sh(['/opt/venv/bin/python', VERIF + '/check.py', prop], VERIF,
                   env={'VP_REPO': wt, 'VERIF_SEED': '1',
                        'VERIF_TIER': 'quick', 'VP_SCRATCH': '1'})
            v = [l for l in c.stdout.split('\n') if 'VIOLATION' in l]
            print(name, 'CHECK rc', c.returncode, 'CAUGHT' if v else 'MISSED',
                  *[x[:170] for x in v[:3]])
    finally:
        shutil.rmtree(tmp)
    return ok

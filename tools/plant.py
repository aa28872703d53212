"""Development helper: write a planted bug to seeded/<id> after confirming it

plant(id, property, [(file, old, new), ...], demo source, needs, breaks)
applies the edit to /repo, builds, runs the stable tests, the demo and the
quick check of the property, and undoes the edit.
"""
import json
import os
import subprocess
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO_SH = '''#!/bin/sh
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kw)


def plant(id, prop, edits, demo, needs, breaks, checks=()):
    d = os.path.join(ROOT, 'seeded', id)
    assert not sh('git -C /repo status --porcelain').stdout.strip()
    os.makedirs(d, exist_ok=True)
    with open(d + '/demo.py', 'w') as fh:
        fh.write(demo.lstrip('\n'))
    with open(d + '/demo.sh', 'w') as fh:
        fh.write(DEMO_SH)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as fh:
        json.dump({'property': prop, 'needs': ' '.join(needs.split()),
                   'what_it_breaks': ' '.join(breaks.split())}, fh, indent=1)
        fh.write('\n')
    good = sh('bash %s/demo.sh' % d, cwd=REPO)
    try:
        for f, old, new in edits:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            with open(p, 'w') as fh:
                fh.write(s.replace(old, new))
        with open(d + '/patch.diff', 'w') as fh:
            fh.write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        t = sh('bash /opt/vp/test.sh /tmp/plant_out.json')
        o = json.load(open('/tmp/plant_out.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        missing = stable - set(o['passed'])
        bad = sh('bash %s/demo.sh' % d, cwd=REPO)
        res = {}
        for c in (prop,) + tuple(checks):
            r = sh('python3 check.py %s' % c, cwd=ROOT)
            res[c] = 'CAUGHT' if r.returncode == 1 and \
                'VIOLATION property=%s' % c in r.stdout else \
                'missed(%d)' % r.returncode
    finally:
        sh('git -C /repo checkout -- . ; rm -f /repo/tests/temp.dat')
    ok = (good.returncode == 0 and bad.returncode != 0 and not missing
          and b.returncode == 0)
    print(id, 'VALID' if ok else 'INVALID', res, '' if ok else
          (good.returncode, bad.returncode, b.returncode, sorted(missing)[:3]))
    if good.returncode:
        print(good.stdout[-600:])
    sys.stdout.flush()
    return ok

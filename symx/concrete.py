"""Concrete side: run scenarios on the plain, un-instrumented code.

usage: concrete.py replay FILE        re-run one recorded counterexample
       concrete.py validate FILE      compare sampled path models (JSON lines)
"""
import importlib
import io
import json
import os
import signal
import sys
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'


def setup(repo='/repo'):
    sys.path.insert(0, ROOT)
    sys.path.insert(0, repo)
    sys.path.append(VT)
    import warnings
    warnings.simplefilter('ignore')


def patch(ctx):
    """Environment stubs: randomness comes from the recorded inputs"""
    import random
    import uuid
    count = [0, 0]

    def choice(seq):
        count[0] += 1
        name = 'random.choice#%d' % count[0]
        idx = ctx.inputs.get(name, 0)
        return seq[min(idx, len(seq) - 1)]

    def uuid4():
        count[1] += 1
        h = (0x9e3779b97f4a7c15f39cc0605cedc835 * count[1]) & ((1 << 128) - 1)
        return uuid.UUID(int=h, version=4)
    random.choice = choice
    uuid.uuid4 = uuid4


def run_one(scen, inputs, deep=False):
    from symx.ctx import ConcCtx, Failed, Skipped
    ctx = ConcCtx(inputs)
    ctx.deep = deep
    patch(ctx)
    out = dict(status='ok', failed=None, known=None, detail='')
    real, sys.stdout = sys.stdout, io.StringIO()
    try:
        scen.fn(ctx)
    except Failed:
        out.update(status='failed', failed=ctx.failed, known=ctx.known,
                   detail=ctx.detail)
    except Skipped:
        out['status'] = 'skipped'
    except Exception as err:
        out.update(status='failed', failed='unexpected exception',
                   detail='%s: %s' % (type(err).__name__, str(err)[:300]),
                   trace=traceback.format_exc()[-1500:])
    finally:
        sys.stdout = real
    out['observed'] = ctx.observed
    out['missing'] = ctx.missing
    return out


def load(prop):
    mod = importlib.import_module('harness.' + prop.lower())
    from harness.reg import REG
    assert mod
    return REG[prop]


def main(argv):
    setup(os.environ.get('SYMX_REPO', '/repo'))
    mode, path = argv[:2]
    if mode == 'replay':
        with open(path) as fh:
            rec = json.load(fh)
        try:
            scens = load(rec['property'])
        except Exception as err:
            # a declaration refused by the code under test
            tb = traceback.extract_tb(err.__traceback__)
            repo = os.environ.get('SYMX_REPO', '/repo')
            inside = any(f.filename.startswith(repo + '/') for f in tb) and \
                not isinstance(err, (ImportError, SyntaxError))
            print(json.dumps(dict(
                status='failed' if inside else 'crash',
                failed='declarations', known=None, missing=[],
                detail='%s: %s' % (type(err).__name__, str(err)[:300]))))
            return 1 if inside else 2
        if rec['scenario'] is None:
            print(json.dumps(dict(status='ok', failed=None)))
            return 0
        scen = scens[rec['scenario']]
        res = run_one(scen, rec['inputs'], rec.get('deep', False))
        res.pop('observed')
        print(json.dumps(res))
        if '-v' in argv:
            print(res.get('trace', ''))
        return 1 if res['status'] == 'failed' else 0
    # validate
    from symx.instrument import Snapshot
    snap = None
    cache = {}

    def on_alarm(*_):
        raise TimeoutError('validation run took too long')
    signal.signal(signal.SIGALRM, on_alarm)
    with open(path) as fh:
        for line in fh:
            rec = json.loads(line)
            if rec['property'] not in cache:
                cache[rec['property']] = load(rec['property'])
                snap = Snapshot()
            scen = cache[rec['property']][rec['scenario']]
            snap.restore()
            signal.alarm(10)
            try:
                res = run_one(scen, rec['inputs'], rec.get('deep', False))
            except TimeoutError:
                res = dict(status='timeout', observed=[], failed=None)
            signal.alarm(0)
            same = res['status'] == 'ok' and json.loads(
                json.dumps(res['observed'])) == rec['observed']
            diff = None
            if not same:
                a = json.loads(json.dumps(res['observed']))
                b = rec['observed']
                i = next((i for i, (x, y) in enumerate(zip(a, b))
                          if x != y), min(len(a), len(b)))
                diff = [a[i:i + 1], b[i:i + 1]]
            print(json.dumps(dict(
                n=rec['n'], same=same, status=res['status'],
                failed=res.get('failed'), known=res.get('known'),
                detail=res.get('detail'), diff=diff)), flush=True)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))

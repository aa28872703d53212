"""Check driver: explores the scenarios of one property on all cores, replays
counterexamples and a sample of path models on the real code, writes the
evidence file."""
import argparse
import collections
import importlib
import json
import multiprocessing
import os
import signal
import subprocess
import sys
import time
import traceback

from . import engine as eng
from . import instrument, rt
from .ctx import SymCtx, enc, observe
from .engine import (
    Engine, EngineSignal, Nondeterminism, PathEnd, PathTimeout, Unsupported,
)

try:
    from . import ndarray                               # noqa: F401
except ImportError:                                     # no numpy
    pass

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENGINE_FNS = {'branch', 'choose', 'concretise', 'assume', 'check', 'fail',
              '_violation', '_backtrack', '_get_model', 'simp', 'restore',
              'register'}
PATH_S = float(os.environ.get('SYMX_PATH_S', '15'))


def on_timer(signum, frame):
    engine = eng.ENGINE
    if engine is None:
        return
    exc = PathTimeout('path time limit')
    f = frame
    while f is not None:
        if f.f_code.co_name in ENGINE_FNS and \
                'symx' in f.f_code.co_filename:
            engine.dead = exc
            signal.setitimer(signal.ITIMER_REAL, 1.0)
            return
        f = f.f_back
    engine.dead = exc
    raise exc


DENSITY = int(os.environ.get('SYMX_DENSITY', '29'))


class Explorer(object):
    """Runs the paths of one scenario below a prefix (worker side)"""

    def __init__(self, snap, scens, deep, seed):
        self.snap = snap
        self.scens = scens
        self.deep = deep
        self.taken = collections.Counter()
        self.seen_viol = collections.Counter()

    def run_task(self, name, prefix, between):
        scen = self.scens[name]
        engine = Engine(conc_limit=scen.kw.get('conc', 3))
        eng.ENGINE = engine
        samples = []

        def run(e):
            self.snap.restore()
            rt.reset()
            ctx = SymCtx(e)
            ctx.deep = self.deep
            signal.setitimer(signal.ITIMER_REAL, PATH_S)
            try:
                scen.fn(ctx)
            except PathTimeout:
                e.dead = False
                try:
                    e._violation('no result within %gs (possible '
                                 'non-termination)' % PATH_S,
                                 e._get_model(), None, 'hang')
                except EngineSignal:
                    pass
                raise
            except EngineSignal:
                raise
            except Exception as err:
                if e.dead:
                    raise e.dead
                detail = '%s: %s' % (type(err).__name__, str(err)[:200])
                tb = traceback.extract_tb(err.__traceback__)
                where = '%s:%s' % (tb[-1].filename, tb[-1].lineno)
                e._violation('unexpected exception', e._get_model(), None,
                             detail + ' at ' + where)
                raise PathEnd()
            finally:
                signal.setitimer(signal.ITIMER_REAL, 0)

        def on_path(e):
            if 'rounded' in e.path_flags:
                return
            n = self.taken[name]
            self.taken[name] += 1
            if n < 3 or (n % DENSITY == 0 and n < 1200 * 29 // DENSITY):
                try:
                    model = e._get_model()
                    samples.append(dict(
                        scenario=name,
                        inputs={k: enc(v) for k, v in
                                e.input_values(model).items()},
                        observed=[[a, b, observe(model, c)
                                   if a == 'note' else c]
                                  for a, b, c in e.observed]))
                except EngineSignal:
                    pass
        try:
            done = engine.explore(run, prefix, between, on_path)
        finally:
            eng.ENGINE = None
        viol = []
        for v in engine.violations:
            key = (name, v['label'], v['known'], v['rounded'])
            self.seen_viol[key] += 1
            if self.seen_viol[key] <= 4:
                v['inputs'] = {k: enc(x) for k, x in v['inputs'].items()}
                v['scenario'] = name
                viol.append(v)
        return dict(done=done, stats=engine.stats, labels=engine.labels,
                    notes=engine.notes, covers=engine.covers,
                    violations=viol, samples=samples, scenario=name,
                    nviol=len(engine.violations))


def worker(conn, explorer, slice_s):
    null = os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    signal.signal(signal.SIGALRM, on_timer)
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(4000)
    while True:
        msg = conn.recv()
        if msg is None:
            return
        if not isinstance(msg, tuple):
            if msg == 'split':
                conn.send(('split', None, []))
            continue
        name, prefix = msg
        state = dict(start=time.time(), stop=False)

        def between(e):
            while conn.poll():
                m = conn.recv()
                if m == 'split':
                    conn.send(('split', name, e.export()))
                elif m == 'stop':
                    return False
            if time.time() - state['start'] > slice_s:
                out = []
                while True:
                    got = e.export()
                    if not got:
                        break
                    out.extend(got)
                if out:
                    conn.send(('spill', name, out))
            return True
        try:
            res = explorer.run_task(name, prefix, between)
        except BaseException as err:
            res = dict(crash=traceback.format_exc(), scenario=name,
                       err=str(err))
        conn.send(('done', name, res))


class Pool(object):

    def __init__(self, explorer, n, slice_s):
        self.ctx = multiprocessing.get_context('fork')
        self.procs = []
        for _ in range(n):
            a, b = self.ctx.Pipe()
            p = self.ctx.Process(target=worker, args=(b, explorer, slice_s),
                                 daemon=True)
            p.start()
            b.close()
            self.procs.append([p, a, None, 0.0])

    def run(self, tasks, budget, on_result):
        from multiprocessing.connection import wait
        queue = collections.deque(tasks)
        start = time.time()
        asked = set()
        stopped = False
        open_tasks = collections.Counter(t[0] for t in tasks)
        while True:
            now = time.time()
            if now - start > budget and not stopped:
                stopped = True
                for w in self.procs:
                    if w[2] is not None:
                        w[1].send('stop')
            if not stopped:
                for w in self.procs:
                    if w[2] is None and queue:
                        name, prefix = queue.popleft()
                        w[1].send((name, prefix))
                        w[2] = name
                        w[3] = now
                idle = [w for w in self.procs if w[2] is None]
                busy = [w for w in self.procs if w[2] is not None]
                if idle and busy and not queue:
                    for w in sorted(busy, key=lambda w: w[3])[:len(idle)]:
                        if id(w) not in asked and now - w[3] > 0.15:
                            asked.add(id(w))
                            w[1].send('split')
            busy = [w for w in self.procs if w[2] is not None]
            if not busy and (stopped or not queue):
                break
            for c in wait([w[1] for w in busy], timeout=0.1):
                w = next(w for w in self.procs if w[1] is c)
                try:
                    kind, name, data = c.recv()
                except EOFError:
                    on_result(dict(crash='worker died', scenario=w[2],
                                   err=''))
                    self.procs.remove(w)
                    if not self.procs:
                        return dict(open_tasks)
                    continue
                if kind in ('split', 'spill'):
                    asked.discard(id(w))
                    for pfx in data:
                        queue.append((name, pfx))
                        open_tasks[name] += 1
                else:
                    w[2] = None
                    asked.discard(id(w))
                    if data.get('done') or data.get('crash'):
                        open_tasks[name] -= 1
                    on_result(data)
            if stopped and time.time() - start > budget + 25:
                break                   # stragglers
        return {k: v for k, v in open_tasks.items() if v > 0}

    def close(self):
        for p, c, _, _ in self.procs:
            try:
                c.send(None)
            except OSError:
                pass
        for p, c, _, _ in self.procs:
            p.join(0.5)
            if p.is_alive():
                p.kill()


def concrete(args, timeout, repo, **kw):
    env = dict(os.environ, PYTHONHASHSEED='0', SYMX_REPO=repo)
    return subprocess.run(
        [sys.executable, os.path.join(ROOT, 'symx', 'concrete.py')] + args,
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
        env=env, cwd=ROOT, **kw)


def load_known():
    known = {}
    path = os.path.join(ROOT, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith('{'):
                rec = json.loads(line)
                known[rec['id']] = rec
    return known


def _load_evidence(prop, tier, seed, t0, violations):
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(dict(property=prop, tier=tier, seed=seed,
                       level='model_checking',
                       coverage=dict(states=0, transitions=0,
                                     traces_validated_against_impl=0,
                                     samples=[], exhaustive=False,
                                     note='the declarations of the harness '
                                     'were refused'),
                       assumptions=[], wall_s=round(time.time() - t0, 2),
                       violations=violations), fh, indent=1)


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=None)
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=os.cpu_count() or 4)
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--strict', action='store_true',
                    help='non-reproducible counterexamples end with 3')
    ap.add_argument('--self-test', action='store_true')
    args = ap.parse_args(argv)
    if args.self_test:
        import z3
        x = z3.Int('x')
        s = z3.Solver()
        s.add(x * x == 49, x < 0)
        assert s.check() == z3.sat and s.model()[x].as_long() == -7
        print('z3 %s, python %s' % (z3.get_version_string(),
                                    sys.version.split()[0]))
        return 0
    tier = args.tier or os.environ.get('VERIF_TIER') or 'quick'
    deep = tier == 'thorough'
    prop = args.property
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = args.budget or (480 if deep else 240)

    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, args.repo)
    instrument.install(args.repo, ROOT)
    try:
        mod = importlib.import_module('harness.' + prop.lower())
    except Exception:
        traceback.print_exc()
        # the declarations of the harness fail under the encoding; ask the
        # real code
        os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
        path = os.path.join(ROOT, 'evidence', 'replay',
                            '%s-load.json' % prop)
        with open(path, 'w') as fh:
            json.dump(dict(property=prop, scenario=None, inputs={},
                           label='declarations'), fh)
        p = concrete(['replay', path], 60, args.repo)
        res = json.loads((p.stdout.decode().strip().splitlines() or
                          ['{"status": "crash"}'])[-1])
        print('ERROR: %s: harness could not be loaded: %s' % (prop, res))
        if res['status'] == 'failed':
            _load_evidence(prop, tier, seed, t0, 1)
            print('VIOLATION property=%s replay=%s' % (prop, path))
            return 1
        _load_evidence(prop, tier, seed, t0, 0)
        return 3
    from harness.reg import REG
    scens = {n: s for n, s in REG[prop].items()
             if (deep or s.tier == 'quick') and
             (not args.only or n in args.only.split(','))}
    snap = instrument.Snapshot()
    import gc
    gc.collect()
    gc.freeze()

    explorer = Explorer(snap, scens, deep, seed)
    pool = Pool(explorer, args.jobs, 2.0)
    agg = dict(stats=collections.Counter(), labels=collections.Counter(),
               notes=collections.Counter(), covers=collections.Counter(),
               violations=[], samples=[], crashes=[],
               per=collections.defaultdict(collections.Counter), nviol=0)

    def on_result(res):
        if 'crash' in res:
            agg['crashes'].append(res)
            return
        agg['stats'].update(res['stats'])
        agg['per'][res['scenario']].update(res['stats'])
        agg['labels'].update(res['labels'])
        agg['notes'].update(res['notes'])
        agg['covers'].update(res['covers'])
        agg['violations'].extend(res['violations'])
        agg['samples'].extend(res['samples'])
        agg['nviol'] += res['nviol']

    order = sorted(scens, key=lambda n: -scens[n].weight)
    try:
        left = pool.run([(n, []) for n in order], budget, on_result)
    finally:
        pool.close()
    t_explore = time.time() - t0

    # ---- replay counterexamples on the real code
    known = load_known()
    os.makedirs(os.path.join(ROOT, 'evidence', 'replay'), exist_ok=True)
    by = collections.OrderedDict()
    for v in agg['violations']:
        by.setdefault((v['scenario'], v['label'], v['known']), []).append(v)
    confirmed, findings, ghosts, gaps = [], {}, [], []
    nrep = 0
    for (sname, label, kid), vs in by.items():
        got = None
        vs.sort(key=lambda v: v['rounded'])
        for v in vs[:8]:
            if nrep > 60:
                break
            nrep += 1
            path = os.path.join(ROOT, 'evidence', 'replay', '%s-%d.json' % (
                prop, nrep))
            rec = dict(property=prop, scenario=sname, inputs=v['inputs'],
                       label=label, deep=deep, detail=v['detail'])
            with open(path, 'w') as fh:
                json.dump(rec, fh, indent=1, sort_keys=True)
            try:
                p = concrete(['replay', path], 40, args.repo)
                line = p.stdout.decode().strip().splitlines()
                res = json.loads(line[-1]) if line else dict(
                    status='crash', detail=p.stderr.decode()[-500:])
                if p.returncode not in (0, 1):
                    # the interpreter itself died on this input
                    res = dict(status='failed', failed='crash', known=None,
                               detail=p.stderr.decode()[-300:]) \
                        if p.returncode < 0 else res
            except subprocess.TimeoutExpired:
                res = dict(status='failed', failed='hang', known=None,
                           detail='no result within 40 s')
            if res['status'] == 'failed':
                got = (path, res, v)
                break
            os.unlink(path)
            if args.v:
                print('not reproduced:', sname, label, v['detail'],
                      json.dumps(v['inputs']), res)
        if got is None:
            if label == 'unexpected exception' or v['detail'] == 'hang':
                gaps.append((sname, label, vs[0]['detail'], vs[0]['inputs']))
            else:
                ghosts.append((sname, label, vs[0]['detail'],
                               vs[0]['inputs']))
            continue
        path, res, v = got
        k = res.get('known')
        if k and k in known and known[k].get('status') == 'known' and \
                known[k].get('property') == prop:
            findings[k] = (path, res)
        else:
            confirmed.append((sname, res.get('failed') or label,
                              res.get('detail'), path, v['inputs']))

    # ---- validate sampled path models against the real code
    samples = agg['samples']
    if os.environ.get('SYMX_KEEP'):
        with open(os.environ['SYMX_KEEP'], 'w') as fh:
            for n, s in enumerate(samples):
                fh.write(json.dumps(dict(s, n=n, property=prop)) + '\n')
    cap = 1500 if deep else 300
    if len(samples) > cap:
        step = len(samples) / float(cap)
        samples = [samples[int(i * step)] for i in range(cap)]
    validated = mismatched = 0
    mism = []
    if samples:
        vpath = os.path.join(ROOT, 'evidence', 'replay', '%s-validate.jsonl'
                             % prop)
        with open(vpath, 'w') as fh:
            for n, s in enumerate(samples):
                fh.write(json.dumps(dict(s, n=n, property=prop, deep=deep))
                         + '\n')
        try:
            p = concrete(['validate', vpath], 120 if not deep else 400,
                         args.repo)
            lines = p.stdout.decode().splitlines()
            err = p.stderr.decode()[-800:]
        except subprocess.TimeoutExpired as e:
            lines = (e.stdout or b'').decode().splitlines()
            err = 'timeout'
        for line in lines:
            try:
                r = json.loads(line)
            except ValueError:
                continue
            if r['same']:
                validated += 1
                continue
            mismatched += 1
            s = samples[r['n']]
            mism.append((s['scenario'], r, s['inputs']))
            if r['status'] == 'failed':
                k = r.get('known')
                if k and k in known and known[k].get('status') == 'known' \
                        and known[k].get('property') == prop:
                    continue
                path = os.path.join(ROOT, 'evidence', 'replay',
                                    '%s-m%d.json' % (prop, r['n']))
                with open(path, 'w') as fh:
                    json.dump(dict(property=prop, scenario=s['scenario'],
                                   inputs=s['inputs'], label=r['failed'],
                                   deep=deep), fh)
                # only a fresh process counts
                try:
                    p2 = concrete(['replay', path], 40, args.repo)
                    if p2.returncode == 1:
                        confirmed.append((s['scenario'], r['failed'],
                                          r['detail'], path, s['inputs']))
                except subprocess.TimeoutExpired:
                    pass
        if len(lines) < len(samples):
            gaps.append(('validate', 'validation incomplete', err, {}))
        os.unlink(vpath)

    # ---- report
    st = agg['stats']
    exhaustive = not left and not agg['crashes'] and not st['truncated'] \
        and not st['unsupported'] and not st['unknown'] and \
        not st['nondet'] and not st['timeouts'] and not st['unknown_checks']
    declared = getattr(mod, 'BOUNDS', '')
    coverage = dict(
        states=st['paths'], transitions=st['decisions'],
        traces_validated_against_impl=validated,
        samples=[dict(scenario=s['scenario'], inputs=s['inputs'],
                      observed=s['observed'][:12])
                 for s in samples[:: max(1, len(samples) // 4)][:5]],
        exhaustive=exhaustive,
        functions_encoded={m: n for m, n in sorted(
            instrument.FUNCTIONS.items()) if not m.startswith('harness')},
        bounds=declared,
        scenarios={n: dict(paths=c['paths'], checks=c['checks'],
                           queries=c['queries'],
                           unfinished=left.get(n, 0))
                   for n, c in sorted(agg['per'].items())},
        assertions={k: n for k, n in sorted(agg['labels'].items())},
        witnesses=dict(sorted(agg['covers'].items())),
        solver=dict(name='z3 %s' % _z3_version(), queries=st['queries'],
                    assertion_queries=st['check_queries'],
                    seconds=round(st['solver_s'], 2),
                    unknown=st['unknown'] + st['unknown_checks']),
        inconclusive=dict(
            unfinished_scenarios=left, truncated=st['truncated'],
            concretised=st['concretised'], unsupported=st['unsupported'],
            nondeterministic=st['nondet'], timeouts=st['timeouts'],
            infeasible_cuts=st['infeasible'],
            notes={k: n for k, n in agg['notes'].most_common(40)},
            model_mismatches=[[m[0], m[1].get('diff')] for m in mism[:10]],
            encoding_gaps=[list(map(str, g[:3])) for g in gaps[:10]],
            crashes=[c['crash'][-400:] for c in agg['crashes'][:3]]),
    )
    evidence = dict(property=prop, tier=tier, seed=seed,
                    level='model_checking', coverage=coverage,
                    assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                    wall_s=round(time.time() - t0, 2),
                    violations=len(confirmed))
    with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(evidence, fh, indent=1, default=str)

    print('%s [%s] %d scenarios, %d paths, %d decisions, %d queries '
          '(%.1fs solver), %d assertions checked, %d models validated, '
          '%d mismatches, exhaustive=%s, %.1fs' % (
              prop, tier, len(scens), st['paths'], st['decisions'],
              st['queries'], st['solver_s'], sum(agg['labels'].values()),
              validated, mismatched, exhaustive, time.time() - t0))
    if args.v or left or gaps or mism or agg['crashes']:
        for k, n in agg['notes'].most_common(12 if not args.v else 60):
            print('  note: %s (%d)' % (k, n))
        for n, c in sorted(agg['per'].items()):
            if args.v or left.get(n):
                print('  %s: %s%s' % (
                    n, dict((k, v) for k, v in c.items() if v),
                    ' UNFINISHED' if left.get(n) else ''))
    for g in gaps[:8]:
        print('  encoding gap: %s' % (str(g)[:600],))
    for m in mism[:8]:
        print('  mismatch: %s' % (str(m)[:600],))
    for c in agg['crashes'][:3]:
        print('  crash in %s: %s' % (c['scenario'], c['crash'][-1500:]))
    if args.v:
        for k, n in sorted(agg['labels'].items()):
            print('  check %s: %d' % (k, n))
        for k, n in sorted(agg['covers'].items()):
            print('  cover %s: %d' % (k, n))
    for k in sorted(findings):
        print('KNOWN-FINDING: property=%s %s [%s]' % (
            prop, known[k]['what'], k))
    for sname, label, detail, path, inputs in confirmed[:10]:
        print('counterexample %s / %s: %s %s' % (
            sname, label, detail or '', json.dumps(inputs)[:400]))
        print('VIOLATION property=%s replay=%s' % (prop, path))
    if confirmed:
        return 1
    if ghosts:
        for g in ghosts[:10]:
            print('INCONCLUSIVE: counterexample does not reproduce on the '
                  'real code: %s' % (str(g)[:900],))
        if args.strict:
            return 3
    missing = [w for w in getattr(mod, 'WITNESSES', ())
               if not agg['covers'].get(w)]
    if missing:
        print('  WARNING: witnesses not reached: %s' % missing)
    if not agg['labels']:
        print('ERROR: no assertion was reached')
        return 2
    return 0


def _z3_version():
    import z3
    return z3.get_version_string()

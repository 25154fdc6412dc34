"""Shared machinery of all checks: model check the design, run the real code
on the behaviours, have TLC judge the recorded traces, write evidence."""
import importlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

from vlib import ext, tlc

ROOT = tlc.ROOT
NPROC = max(2, min(8, os.cpu_count() or 2))


class Ctx(object):
    def __init__(self, prop, tier, seed, scratch):
        self.prop = prop
        self.tier = tier
        self.quick = tier != 'thorough'
        self.seed = seed
        self.rnd = random.Random('%s/%d' % (prop, seed))
        self.scratch = scratch
        self.states = 0
        self.transitions = 0
        self.design_runs = []
        self.notes = []
        self.problems = []

    def pick(self, quick, thorough):
        return quick if self.quick else thorough

    def model(self, module, cfg, **kw):
        """Run a design model; it must be free of errors."""
        kw.setdefault('timeout', 500 if self.quick else 3000)
        kw.setdefault('workers', NPROC)
        r = tlc.run(module, cfg, self.scratch, **kw)
        self.states += r.distinct
        self.transitions += r.generated
        self.design_runs.append({'module': module, 'distinct': r.distinct,
                                 'generated': r.generated,
                                 'wall_s': round(r.wall, 1), 'ok': r.ok})
        if not r.ok:
            raise tlc.TlcError('design model %s failed: %s'
                               % (module, r.error))
        return r

    def models(self, jobs):
        """Run several design models in parallel."""
        with ThreadPoolExecutor(4) as ex:
            futs = [ex.submit(self.model, m, c, **k) for m, c, k in jobs]
            return [f.result() for f in futs]


# ------------------------------------------------------------ implementation

def run_impl(ctx, driver, scenarios, so):
    """Execute the scenarios on the real code in worker processes."""
    n = len(scenarios)
    nproc = min(NPROC, max(1, n // 4))
    results = [None] * n
    limit = getattr(driver, 'SCENARIO_TIMEOUT', 60)

    def work(k):
        todo = list(range(k, n, nproc))
        rounds = died = 0
        while todo:
            rounds += 1
            d = tempfile.mkdtemp(prefix='impl-', dir=ctx.scratch)
            inp, outp = os.path.join(d, 'in.json'), os.path.join(d, 'out')
            with open(inp, 'w') as f:
                json.dump([[i, scenarios[i]] for i in todo], f)
            env = dict(os.environ)
            env.update(PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                       PYTHONPATH=ROOT + ':' + ext.REPO, MPLBACKEND='Agg',
                       PYTHONNOUSERSITE='1', HOME=d, TMPDIR=d,
                       OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
                       VERIF_SO=so, VERIF_SCRATCH=d)
            p = subprocess.Popen(
                [ext.PY, '-W', 'ignore', '-m', 'vlib.worker',
                 driver.__name__, inp, outp, str(limit)],
                cwd=d, env=env, stdout=subprocess.DEVNULL,
                stderr=subprocess.PIPE)
            # watchdog: the worker must make progress
            last, size = time.time(), -1
            err = b''
            import threading

            def drain():
                nonlocal err
                err = p.stderr.read()
            th = threading.Thread(target=drain)
            th.start()
            while p.poll() is None:
                time.sleep(0.05)
                s = os.path.getsize(outp) if os.path.exists(outp) else 0
                if s != size:
                    size, last = s, time.time()
                elif time.time() - last > limit + 30:
                    p.kill()
                    p.wait()
            th.join()
            done = []
            cur = None
            if os.path.exists(outp):
                with open(outp) as f:
                    for line in f:
                        try:
                            rec = json.loads(line)
                        except ValueError:
                            break
                        if 'start' in rec:
                            cur = rec['start']
                        else:
                            results[rec['i']] = rec['t']
                            done.append(rec['i'])
                            cur = None
            shutil.rmtree(d, ignore_errors=True)
            left = [i for i in todo if results[i] is None]
            if not left:
                return
            if cur is None:
                if rounds > 2:
                    msg = err.decode('utf8', 'replace')[-1500:]
                    for i in left:
                        results[i] = {'crash': 'worker failed: ' + msg}
                    return
            else:
                results[cur] = {'crash': 'process died or hung (rc=%s)'
                                % p.returncode}
                left.remove(cur)
                died += 1
                if died >= 3:
                    for i in left:
                        results[i] = {'notrun': True}
                    return
            todo = left

    with ThreadPoolExecutor(nproc) as ex:
        list(ex.map(work, range(nproc)))
    return results


# ------------------------------------------------------------ trace checking

def judge(ctx, module, traces, cfg=None, workers=2, timeout=None, chunk=None):
    """TLC's verdict on each trace: list of dicts {v: clause, l: step}.

    A trace on which TLC cannot evaluate the specification at all (say, an
    array of the wrong rank) is isolated by bisection and is a violation; a
    trace whose numbers leave TLC's integers is skipped (this depends only on
    the scenario)."""
    timeout = timeout or (150 if ctx.quick else 1500)
    cfg = cfg or 'INIT TInit\nNEXT TNext\nCHECK_DEADLOCK FALSE\n'
    verdicts = [None] * len(traces)
    stop = []

    def go(idx, depth=0):
        if not idx or stop:
            return
        f = tempfile.NamedTemporaryFile('w', suffix='.ndjson', delete=False,
                                        dir=ctx.scratch)
        with f:
            for i in idx:
                f.write(json.dumps(traces[i]) + '\n')
        single = len(idx) == 1
        r = tlc.run(module, cfg, ctx.scratch, workers=1 if single else workers,
                    timeout=timeout,
                    extra_files=[(f.name, 'trace.ndjson')])
        os.unlink(f.name)
        ctx.states += r.distinct
        ctx.transitions += r.generated
        for v in r.verdicts:
            k = idx[v['t'] - 1]
            if verdicts[k] is None or verdicts[k]['v'] == 'ok':
                verdicts[k] = v
        missing = [i for i in idx if verdicts[i] is None]
        if not missing:
            return
        if 'Parsing or semantic analysis failed' in r.out:
            raise tlc.TlcError(r.out[-1500:])
        if 'OutOfMemory' in r.out or 'timeout' in r.error and single:
            raise tlc.TlcError('TLC: %s on %s' % (r.error[:200], module))
        if single:
            if 'Overflow when computing' in r.out:
                verdicts[idx[0]] = {'v': 'skip', 'l': 0}
                return
            verdicts[idx[0]] = {
                'v': 'trace not in the domain of the specification',
                'l': 0, 'detail': r.error[:800], 'tlc': True}
            stop.append(1)
            return
        if depth > 16:
            raise tlc.TlcError('trace check failed: ' + r.error)
        # isolate offending traces; keep the verdicts already given
        h = max(1, len(missing) // 2)
        go(missing[:h], depth + 1)
        go(missing[h:], depth + 1)

    n = len(traces)
    chunk = chunk or max(1, -(-n // 4))
    parts = [list(range(i, min(n, i + chunk))) for i in range(0, n, chunk)]
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(go, parts))
    if n > 3 and not any(v and v['v'] == 'ok' for v in verdicts) \
            and all(v is None or v.get('tlc') for v in verdicts):
        raise tlc.TlcError('no trace could be evaluated: %s'
                           % [v for v in verdicts if v][0].get('detail'))
    skipped = sum(1 for v in verdicts if v and v['v'] == 'skip')
    if skipped > 5 + n // 10:
        raise tlc.TlcError('%d of %d traces skipped' % (skipped, n))
    if skipped:
        ctx.notes.append('%d traces skipped (range of integers)' % skipped)
    return [v or {'v': 'skip', 'l': 0} for v in verdicts]


# ------------------------------------------------------------------- main

def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)['findings']


def main(prop):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    tier = tier if tier in ('quick', 'thorough') else 'quick'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    scratch = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    rc = 2
    try:
        rc = _main(prop, tier, seed, scratch, t0)
    except tlc.TlcError as e:
        sys.stderr.write('CHECK-ERROR %s: %s\n' % (prop, e))
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _main(prop, tier, seed, scratch, t0):
    ctx = Ctx(prop, tier, seed, scratch)
    driver = importlib.import_module('drivers.' + prop.lower())
    with ThreadPoolExecutor(2) as ex:
        so_f = ex.submit(ext.locate_extension)
        sc_f = ex.submit(driver.scenarios, ctx)
        so, scenarios = so_f.result(), sc_f.result()
    t1 = time.time()
    if so is None:
        results = [{'crash': 'the extension module does not build'}
                   for _ in scenarios]
    else:
        results = run_impl(ctx, driver, scenarios, so)
    t2 = time.time()

    # group traces by trace specification
    groups = {}
    violations = []     # (index, clause, detail)
    for i, (sc, tr) in enumerate(zip(scenarios, results)):
        if 'notrun' in tr:      # after many that hung, see run_impl
            continue
        if 'crash' in tr:
            violations.append((i, 'crash', tr['crash']))
            continue
        spec = tr.pop('_spec', None) or sc.get('_spec') or driver.TRACE_SPEC
        groups.setdefault(spec, []).append(i)
    validated = 0
    steps = 0
    for spec, idx in sorted(groups.items()):
        vs = judge(ctx, spec, [results[i] for i in idx])
        for i, v in zip(idx, vs):
            validated += v['v'] != 'skip'
            steps += v.get('l', 0)
            if v['v'] not in ('ok', 'skip'):
                violations.append((i, v['v'], v.get('detail', '')))
    t3 = time.time()

    # known findings are identified by (property, scenario tag, clause)
    known = {(k['tag'], k['clause']): k for k in known_findings()
             if k['property'] == prop and k.get('status') == 'known'}
    fresh = []
    hit = {}
    for i, clause, detail in violations:
        tag = scenarios[i].get('tag', '')
        k = known.get((tag, clause))
        if k is not None and tag:
            hit[k['id']] = k
        else:
            fresh.append((i, clause, detail))
    for k in hit.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    evd = os.path.join(ROOT, 'evidence')
    os.makedirs(evd, exist_ok=True)
    replay = ''
    if fresh:
        rd = os.path.join(evd, 'replay')
        os.makedirs(rd, exist_ok=True)
        replay = os.path.join(rd, prop + '.json')
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'how': 'python check.py --replay ' + replay,
                       'violations': [
                           {'scenario': scenarios[i], 'observed': results[i],
                            'clause': c, 'detail': d}
                           for i, c, d in fresh[:25]]}, f, indent=1)
    samples = []
    step = max(1, len(scenarios) // 3)
    for i in range(0, len(scenarios), step):
        s = json.dumps({'scenario': scenarios[i], 'observed': results[i]})
        samples.append(s if len(s) < 3000 else s[:3000] + '...')
        if len(samples) >= 3:
            break
    by = {}
    for s in scenarios:
        by[s.get('kind', '-')] = by.get(s.get('kind', '-'), 0) + 1
    cov = {'states': ctx.states, 'transitions': ctx.transitions,
           'traces_validated_against_impl': validated,
           'trace_steps_checked': steps, 'scenario_kinds': by,
           'design_models': ctx.design_runs, 'samples': samples,
           'known_findings_seen': sorted(hit)}
    if ctx.notes:
        cov['notes'] = ctx.notes
    ev = {'property': prop, 'tier': tier, 'seed': seed,
          'level': 'model_checking', 'coverage': cov,
          'assumptions': getattr(driver, 'ASSUMPTIONS', []),
          'wall_s': round(time.time() - t0, 2), 'violations': len(fresh)}
    tmp = os.path.join(evd, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(evd, prop + '.json'))
    print('%s: %d scenarios, %d traces judged, %d states, %d violations '
          '(model %.1fs, code %.1fs, judge %.1fs)'
          % (prop, len(scenarios), validated, ctx.states, len(fresh),
             t1 - t0, t2 - t1, t3 - t2))
    if not scenarios:
        raise tlc.TlcError('no scenarios')
    if fresh:
        for i, c, d in fresh[:5]:
            print('  clause: %s | tag=%s kind=%s | %s'
                  % (c, scenarios[i].get('tag', ''),
                     scenarios[i].get('kind', ''), str(d)[-240:]))
        print('VIOLATION property=%s replay=%s' % (prop, replay))
        return 1
    return 0


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = rep['property']
    scratch = tempfile.mkdtemp(prefix='verif-replay-')
    try:
        ctx = Ctx(prop, 'quick', rep['seed'], scratch)
        driver = importlib.import_module('drivers.' + prop.lower())
        scs = [v['scenario'] for v in rep['violations']]
        res = run_impl(ctx, driver, scs, ext.locate_extension())
        bad = 0
        for sc, tr in zip(scs, res):
            if 'crash' in tr:
                v = {'v': 'crash', 'detail': tr['crash']}
            else:
                spec = tr.pop('_spec', None) or sc.get('_spec') \
                    or driver.TRACE_SPEC
                v = judge(ctx, spec, [tr])[0]
            bad += v['v'] not in ('ok', 'skip')
            print(json.dumps({'scenario': sc, 'observed': tr, 'verdict': v}))
        return 1 if bad else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

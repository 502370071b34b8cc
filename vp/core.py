"""Case runner: executes monitored workloads, collects what the monitors observed, writes evidence.

A check module (vp.checks.pNN) provides
    LEVEL_RULE : text for the evidence
    cases(tier, seed) -> list of dict (picklable case descriptors)
    run_case(case, obs) -> None, drives the real code and reports to obs
    REQUIRE : dict counter -> minimum that must have been observed over the whole run
"""
import hashlib
import importlib
import json
import os
import sys
import time
import traceback
import multiprocessing as mp
from collections import Counter

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class Stop(Exception):
    """raised to abandon a case after a violation was recorded"""


class Obs:
    """What the monitors of one case observed"""

    MAXV = 3

    def __init__(self, case):
        self.case = case
        self.counts = Counter()
        self.keys = set()
        self.samples = []
        self.violations = []
        self.known = []
        self.evals = 0

    def n(self, name, k=1):
        self.counts[name] += k

    def judged(self, key=None, nontrivial=True):
        """one observed event was judged by the oracle"""
        self.evals += 1
        if key is not None and nontrivial:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, **kw):
        if len(self.samples) < 2:
            self.samples.append(clean(kw))

    def violate(self, what, **detail):
        self.violations.append({'what': what, 'detail': clean(detail)})
        if len(self.violations) >= self.MAXV:
            raise Stop()

    def expect(self, cond, what, **detail):
        if not cond:
            self.violate(what, **detail)
        return bool(cond)

    def call(self, what, fn, *a, **kw):
        """call into the code under test; an exception is a violation (and ends the case)"""
        try:
            return fn(*a, **kw)
        except Stop:
            raise
        except Exception as e:  # noqa
            tb = traceback.format_exc().strip().splitlines()
            self.violations.append({'what': f'{what} raised {type(e).__name__}: {str(e)[:300]}', 'detail': {'traceback': tb[-12:]}})
            raise Stop() from e


def clean(o, depth=0):
    import numpy as np
    if isinstance(o, dict):
        return {str(k): clean(v, depth + 1) for k, v in o.items()}
    if isinstance(o, (list, tuple)):
        return [clean(v, depth + 1) for v in list(o)[:60]]
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    try:
        a = np.asarray(o)
        if a.dtype.kind in 'fiub':
            return a.tolist() if a.size <= 80 else {'shape': list(a.shape), 'head': a.ravel()[:20].tolist()}
    except Exception:
        pass
    return repr(o)[:300]


def _init_worker():
    os.environ.setdefault('JAX_PLATFORMS', 'cpu')
    import warnings
    warnings.simplefilter('ignore')
    sys.path.insert(0, REPO)


def raised_by_repo(e):
    """did the exception come out of the library (called with valid input), not out of the harness or a callback of the harness?"""
    where = None
    for fr in traceback.extract_tb(e.__traceback__):
        if fr.filename.startswith(VERIF + os.sep):
            where = 'harness'
        elif fr.filename.startswith(os.path.join(REPO, 'run_time_assurance') + os.sep):
            where = 'repo'
    return where == 'repo'


def run_one(pid, case):
    """returns (status, data); status in ok|error"""
    t0 = time.time()
    obs = Obs(case)
    err = None
    try:
        import numpy as np
        import jax
        import warnings
        jax.config.update('jax_enable_x64', bool(case.get('x64', True)))
        np.random.seed(case.get('seed', 0) % (2**31))
        mod = importlib.import_module(f'vp.checks.{pid.lower()}')
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            mod.run_case(case, obs)
    except Stop:
        pass
    except Exception as e:  # noqa
        if raised_by_repo(e):
            obs.violations.append({'what': f'the code under test raised {type(e).__name__}: {str(e)[:300]}', 'detail': {'traceback': traceback.format_exc().strip().splitlines()[-14:]}})
        else:   # harness failure
            err = traceback.format_exc()
    finally:
        # keep compiled code from piling up in a worker
        try:
            import resource
            if resource.getrusage(resource.RUSAGE_SELF).ru_maxrss > 2.5e6:
                import jax
                jax.clear_caches()
        except Exception:
            pass
    return {'case': case, 'err': err, 'counts': dict(obs.counts), 'keys': obs.keys, 'samples': obs.samples,
            'violations': obs.violations, 'known': obs.known, 'evals': obs.evals, 't': time.time() - t0}


def case_seed(seed, *parts):
    h = hashlib.blake2b(repr((seed,) + parts).encode(), digest_size=4).digest()
    return int.from_bytes(h, 'big') % (2**31 - 1)


def load_known():
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return {}
    with open(path) as f:
        d = json.load(f)
    return {(k['property'], k['key']): k for k in d.get('findings', [])}


def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('tier', nargs='?', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--serial', action='store_true')
    ap.add_argument('--match')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    seed = int(os.environ.get('VERIF_SEED', '1'))
    pid = a.pid.upper()
    t0 = time.time()
    _init_worker()
    mod = importlib.import_module(f'vp.checks.{pid.lower()}')
    if a.replay:
        with open(a.replay) as f:
            cases = [json.load(f)['case']]
    else:
        cases = mod.cases(a.tier, seed)
    for i, c in enumerate(cases):
        c.setdefault('id', i)
        c.setdefault('tier', a.tier)
    if a.match:
        cases = [c for c in cases if a.match in json.dumps(c)]
    # long cases first
    order = sorted(range(len(cases)), key=lambda i: -cases[i].get('w', 1))
    results = []
    if a.serial or len(cases) == 1:
        for i in order:
            r = run_one(pid, cases[i])
            results.append(r)
            if a.v:
                print(cases[i], 't=%.1f' % r['t'], r['counts'], file=sys.stderr)
    else:
        nw = int(os.environ.get('VP_WORKERS', str(min(8, os.cpu_count() or 2))))
        ctx = mp.get_context('spawn')
        with ctx.Pool(min(nw, len(cases)), initializer=_init_worker) as pool:
            it = [pool.apply_async(run_one, (pid, cases[i])) for i in order]
            nviol = 0
            for k, r in enumerate(it):
                r = r.get()
                results.append(r)
                if a.v:
                    print(r['case'], 't=%.1f' % r['t'], r['counts'], file=sys.stderr)
                nviol += len(r['violations'])
                if nviol >= 3 and a.tier == 'quick' and not a.v:
                    pool.terminate()
                    break
    counts, keys, samples, viol, known, evals, errs = Counter(), set(), [], [], [], 0, []
    for r in sorted(results, key=lambda r: r['case']['id']):
        counts.update(r['counts'])
        keys |= r['keys']
        evals += r['evals']
        if len(samples) < 6:
            samples += r['samples'][:1]
        for v in r['violations']:
            viol.append((r['case'], v))
        known += r['known']
        if r['err']:
            errs.append((r['case'], r['err']))
    kf = load_known()
    seen = set()
    real = list(viol)
    for k in known:
        if (pid, k['key']) in kf:
            if k['key'] not in seen:
                seen.add(k['key'])
                print(f"KNOWN-FINDING: property={pid} {kf[(pid, k['key'])]['what']}")
        else:
            real.append((k['case'], {'what': 'unlisted: ' + k['what'], 'detail': k.get('detail', {})}))
    short = {k: (counts.get(k, 0), v) for k, v in getattr(mod, 'REQUIRE', {}).items() if counts.get(k, 0) < v}
    if a.replay or a.match:
        short = {}
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': getattr(mod, 'LEVEL', 'exploration'),
          'coverage': {'evaluations': int(evals), 'distinct_nontrivial': len(keys), 'rule': mod.RULE,
                       'samples': samples or ['none'], 'observed': {k: int(v) for k, v in sorted(counts.items())}, 'cases': len(results)},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(real)}
    if not (a.replay or a.match):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{pid}.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print(f"{pid} {a.tier} seed={seed}: cases={len(results)} judged={evals} distinct={len(keys)} wall={ev['wall_s']}s")
    print('  observed: ' + ', '.join(f'{k}={v}' for k, v in sorted(counts.items())))
    for case, e in errs[:3]:
        print('HARNESS-ERROR in case', json.dumps(clean(case)), '\n', e)
    if real:
        d = os.path.join(VERIF, 'out', 'replay')
        os.makedirs(d, exist_ok=True)
        for k, (case, v) in enumerate(real[:5]):
            path = os.path.join(d, f'{pid}-{case.get("id", 0)}-{k}.json')
            with open(path, 'w') as f:
                json.dump({'property': pid, 'case': clean(case), 'violation': v,
                           'rerun': f'bash run.sh {pid} --replay {path}'}, f, indent=1)
            print('  ', v['what'][:400])
            if a.v or a.replay:
                print(json.dumps(v['detail'], indent=1)[:3000])
            print(f'VIOLATION property={pid} replay={path}')
        return 1
    if errs:
        return 2
    if short:
        print('NOT ENOUGH OBSERVED:', short)
        return 2
    return 0

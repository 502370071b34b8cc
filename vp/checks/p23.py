"""P23 sample tests: the CSV verdicts checked offline against the recorded episode traces and an independent replay"""
import ast
import contextlib
import csv
import io
import os
import shutil
import tempfile
import numpy as np
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import UC, PCS, rbase, SolverError, jnp, z2, user_scn
from run_time_assurance.utils import sample_testing as ST
from run_time_assurance.zoo.cwh import random_sample_testing as ZS

RULE = 'distinct (sampler, episode pattern or initial state, verdict) whose CSV row was compared with the independently replayed episode'
ASSUMPTIONS = ['safe means every phi >= 0 (and h >= 0 initially); replayed trajectories that come within rounding of a boundary are not judged',
               'solver failure means the filter raised SolverError (modules built with solver_exception=True)']
REQUIRE = {'rows': 200, 'verdict_true': 80, 'verdict_false': 50, 'false_only_last_step': 8, 'false_only_middle_step': 8, 'false_solver': 6, 'unsafe_sample_skipped': 45, 'unsafe_by_phi_only': 8, 'unsafe_by_h_only': 8, 'boundary_zero': 8,
           'custom_done': 15, 'zoo_rows': 30, 'real_rows': 40, 'created_nested_dir': 5, 'trace_step': 250, 'latched_rows': 10, 'long_episode': 8, 'many_points': 100, 'disabled_constraint_rows': 20}


def cases(tier, seed):
    K = 1 if tier == 'quick' else 5
    out = []
    for r in range(28 * K):
        out.append(dict(part='script', seed=case_seed(seed, 'p23s', r), w=2, many=r % 14 == 3))
    for r in range(K):
        for i, (kind, sysn) in enumerate([('easif', 'di1'), ('easif', 'di2'), ('esimplex', 'pend'), ('isimplex', 'di1'), ('easif', 'full2'), ('dasif', 'di1')]):
            for smp in ('lhs', 'par'):
                out.append(dict(part='real', kind=kind, sys=sysn, smp=smp, seed=case_seed(seed, 'p23r', i, smp, r), n=8, w=4, latch=0))
        for i, sysn in enumerate(['di1', 'di2', 'pend', 'full2']):
            out.append(dict(part='real', kind='esimplex', sys=sysn, smp='par', seed=case_seed(seed, 'p23l', i, r), n=40, w=4, latch=5.))
        for z in ('lhs', 'par', 'lhs_default'):
            out.append(dict(part='zoo', smp=z, seed=case_seed(seed, 'p23z', z, r), n=16 if z != 'lhs_default' else 10, w=8))
    return out


def run_case(case, obs):
    tmp = tempfile.mkdtemp(prefix='vp_p23_')
    try:
        {'script': script, 'real': real, 'zoo': zoo}[case['part']](case, obs, tmp)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def run_test(obs, t, tmp, rng):
    """run the sample test in a fresh directory and return the parsed rows"""
    d = os.path.join(tmp, 'res')
    if rng.random() < 0.5:
        d = os.path.join(tmp, 'a', 'b%d' % rng.integers(10), 'res')
    pre = rng.random() < 0.4
    if pre:
        os.makedirs(d)
        with open(os.path.join(d, 'keep.txt'), 'w') as f:
            f.write('x')
    with contextlib.redirect_stdout(io.StringIO()):
        obs.call('run_sample_test', t.run_sample_test, d)
    if not os.path.isdir(d):
        obs.violate('the output directory was not created')
        return None
    if not pre:
        obs.n('created_nested_dir')
    fs = [f for f in os.listdir(d) if f != 'keep.txt']
    if len(fs) != 1 or not fs[0].endswith('.csv'):
        obs.violate(f'{fs} written instead of one CSV file')
        return None
    if pre:
        obs.expect(os.path.exists(os.path.join(d, 'keep.txt')), 'an existing file of the output directory was removed')
    rows = []
    with open(os.path.join(d, fs[0]), newline='') as f:
        for r in csv.reader(f):
            if not r:
                continue
            try:
                if r[0] not in ('True', 'False') or len(r) != 2:
                    raise ValueError
                rows.append((r[0] == 'True', np.array(ast.literal_eval(r[1]), float)))
            except Exception:  # noqa
                obs.violate(f'unreadable row {r}')
                return None
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    return rows


# ------------------------------------------------------------------ scripted episodes
def script(case, obs, tmp):
    rng = np.random.default_rng(case['seed'])
    n = int(rng.integers(3, 14)) if not case['many'] else int(rng.integers(100, 130))
    dt = float(rng.choice([0.25, 0.5, 1.0, 2.0]))
    custom = rng.random() < 0.5
    T = int(rng.integers(1, 8))
    own_transform = rng.random() < 0.3
    eps = []
    while sum(e['safe'] for e in eps) < n:
        L = int(rng.integers(1, 9)) if custom else T
        if custom and n < 20 and rng.random() < 0.25:
            L = int(rng.integers(60, 320))
            obs.n('long_episode')
        v = rng.uniform(0.1, 2, (L + 1, 4))     # phiA hA phiB hB
        kind = str(rng.choice(['safe', 'safe', 'mid', 'last', 'first', 'solver', 'uphi', 'uh', 'zero', 'hmid']))
        if L >= 60 and rng.random() < 0.7:
            kind = 'mid'
        safe, verdict, serr = True, True, -1
        col = int(rng.choice([0, 2]))
        tiny = float(10.**rng.uniform(-9, 0))
        if kind == 'mid' and L >= 2:
            v[int(rng.integers(1, L)), col] = -tiny
            verdict = False
        elif kind == 'mid':
            kind = 'safe'
        elif kind == 'last':
            v[L, col] = -tiny
            verdict = False
        elif kind == 'first':
            v[1, col] = -tiny
            verdict = False
        elif kind == 'solver':
            serr = int(rng.integers(0, L))
            verdict = False
        elif kind == 'uphi':
            v[0, col] = -tiny
            safe = False
        elif kind == 'uh':
            v[0, col + 1] = -tiny
            safe = False
        elif kind == 'zero':
            v[int(rng.integers(0, L + 1)), :] = 0.
        elif kind == 'hmid':
            v[int(rng.integers(1, L + 1)), 1] = -1.
        eps.append(dict(L=L, v=v, kind=kind, safe=safe, verdict=verdict, serr=serr, u=rng.uniform(-1, 1, (L + 1, 2))))
    extra = int(rng.integers(0, 3))
    log = []
    enb = [bool(rng.random() < 0.8), bool(rng.random() < 0.8)]      # the verdict is about every constraint of the module, enforced or not
    if not all(enb):
        obs.n('disabled_constraint_rows', n)

    class Script(rbase.ConstraintBasedRTA):
        def _setup_constraints(self):
            return OrderedDict(A=UC(lambda xp, x, p: x[3], phi=lambda xp, x, p: x[2], alpha=PCS([0, 1.]), enabled=enb[0]),
                               B=UC(lambda xp, x, p: x[5] + p['k'], phi=lambda xp, x, p: x[4] + p['k'], params={'k': 0.}, alpha=PCS([0, 1.]), enabled=enb[1]))

        def _filter_control(self, state, step_size, control):
            e, t = int(state[0]), int(state[1])
            log.append(('filter', e, t, float(step_size), np.array(control)))
            if t == eps[e]['serr']:
                raise SolverError()
            return 0.5 * control + 0.125

    class Test(ST.SafetyAssuranceSampleTestingModule):
        k = 0

        def _get_initial_state(self):
            e = self.k
            self.k += 1
            log.append(('init', e))
            s = np.r_[e, 0, eps[min(e, len(eps) - 1)]['v'][0]]
            return s - 100. if own_transform else s

        def _desired_control(self, state):
            e, t = int(state[0]), int(state[1])
            log.append(('desired', e, t))
            return eps[e]['u'][t].copy()

        def _pred_state(self, state, step_size, control):
            e, t = int(state[0]), int(state[1])
            log.append(('pred', e, t, float(step_size), np.array(control)))
            return np.r_[e, t + 1, eps[e]['v'][min(t + 1, eps[e]['L'])]]

        def _check_done_conditions(self, state, time):
            e, t = int(state[0]), int(state[1])
            d = bool(t >= eps[e]['L']) if custom else super()._check_done_conditions(state, time)
            log.append(('done', e, t, float(time), d))
            return d

        if own_transform:
            def _transform_state(self, state):
                return state + 100.
    bounds = dict(control_bounds_low=-0.4, control_bounds_high=0.45) if rng.random() < 0.5 else {}
    rta = obs.call('ConstraintBasedRTA', Script, **bounds)
    t = obs.call('sample test', Test, rta=rta, n_points=n, simulation_time=T * dt if not custom else 1e9, step_size=dt, control_dim=2, state_dim=6)
    rows = run_test(obs, t, tmp, rng)
    if rows is None:
        return
    want = [(e['verdict'], i) for i, e in enumerate(eps) if e['safe']]
    if custom:
        obs.n('custom_done', len(want))
    if len(rows) != n:
        obs.violate(f'{len(rows)} rows for {n} requested points')
        return
    for (got, x), (v, i) in zip(rows, want):
        e = eps[i]
        obs.n('rows')
        if n >= 100:
            obs.n('many_points')
        obs.judged((e['kind'], e['L'], i, v, dt), nontrivial=e['kind'] != 'safe')
        obs.sample(kind=e['kind'], steps=e['L'], verdict=got)
        det = dict(episode=i, kind=e['kind'], values=e['v'], row=x, verdict=got, expected=v, step=dt)
        if x.shape != (6,) or int(round(x[0])) != i:
            obs.violate(f'row for sample {x} where sample {i} is the next safe one', **det)
            return
        if not np.allclose(x, np.r_[i, 0, e['v'][0]], atol=1e-9 if own_transform else 0, rtol=0):
            obs.violate(f'row records {x} instead of the initial state {np.r_[i, 0, e["v"][0]]}', **det)
        if got != v:
            obs.violate(f'episode {e["kind"]} recorded {got}, the trace says {v}', **det)
        obs.n('verdict_true' if v else 'verdict_false')
        obs.n({'last': 'false_only_last_step', 'mid': 'false_only_middle_step', 'solver': 'false_solver', 'zero': 'boundary_zero'}.get(e['kind'], 'other'))
    # trace: order, arguments, length of the episodes
    for i, e in enumerate(eps):
        ev = [l for l in log if l[1] == i]
        steps = [l for l in ev if l[0] == 'pred']
        fl = [l for l in ev if l[0] == 'filter']
        if not e['safe']:
            obs.n('unsafe_sample_skipped')
            obs.n('unsafe_by_phi_only' if e['kind'] == 'uphi' else 'unsafe_by_h_only')
            continue
        for a, b in zip(fl, steps):
            obs.n('trace_step')
            w = R.clip(0.5 * e['u'][a[2]] + 0.125, rta.control_bounds_low, rta.control_bounds_high)
            if a[2] != b[2] or a[3] != dt or b[3] != dt or not np.allclose(a[4], e['u'][a[2]]) or not np.allclose(b[4], w):
                obs.violate('the episode did not apply the filtered desired control with the configured step', filter=a, pred=b, want=w, step=dt)
                return
        if e['verdict'] and len(steps) != e['L']:
            obs.violate(f'an episode of {e["L"]} steps was simulated for {len(steps)}', kind=e['kind'], step=dt)
        tm = [l[3] for l in ev if l[0] == 'done']
        if not np.allclose(tm, dt * np.arange(1, len(tm) + 1)):
            obs.violate(f'done condition evaluated at times {tm}, step {dt}')


# ------------------------------------------------------------------ real filters
def make_real(case, rng):
    spec = dict(fam='user', kind=case['kind'], sys=case['sys'], cseed=int(rng.integers(1 << 30)), bounds=[-1., 1.])
    if case['kind'] in ('isimplex', 'iasif'):
        spec['window'] = 0.5
    s = lib.mk(spec)
    w = rng.uniform(-1, 1, s.nx) * rng.choice([0.2, 0.6, 1.0])
    ph = rng.uniform(0, 6)
    a = rng.uniform(0.3, 1.5)

    def desired(x):
        return a * np.sin(3 * np.sum(x) + ph) * np.ones(s.nu)

    def pred(x, dt, u):
        x = np.asarray(x, float)
        return s.pred(x, dt, np.asarray(u, float)) + dt * w * np.cos(2 * x)
    return s, desired, pred


def replay(s, rta, x, dt, T, desired, pred):
    """(safe initially?, verdict, smallest distance to a decision boundary)"""
    amb = np.inf
    for c in s.cons.values():
        amb = min(amb, abs(c.h(x)), abs(c.phi(x)))
    if any(c.h(x) < 0 or c.phi(x) < 0 for c in s.cons.values()):
        return False, None, amb
    t = 0.
    while True:
        try:
            u = rta.filter_control(np.array(x), dt, desired(x))
        except SolverError:
            return True, False, amb
        x = pred(x, dt, u)
        t += dt
        p = [c.phi(x) for c in s.cons.values()]
        amb = min(amb, min(map(abs, p)))
        if min(p) < 0:
            return True, False, amb
        if t >= T:
            return True, True, amb


def real(case, obs, tmp):
    rng = np.random.default_rng(case['seed'])
    s, desired, pred = make_real(case, rng)
    dt, T = 0.125, float(rng.choice([1.0, 1.5]))
    kw = {}
    if case['kind'] == 'easif':
        kw['solver_exception'] = True
    if case['latch']:
        kw['latch_time'] = case['latch']
    seen = []
    base = ST.LatinHypercubeRandomSampleTestingModule if case['smp'] == 'lhs' else ST.ParametricRandomSampleTestingModule

    class Test(base):
        def _get_initial_state(self):
            x = super()._get_initial_state()
            seen.append(np.array(x, float))
            return x

        def _pred_state(self, state, step_size, control):
            return pred(np.asarray(state, float), step_size, np.asarray(control, float))

        def _desired_control(self, state):
            return desired(np.asarray(state, float))
    lo, hi = -rng.uniform(0.3, 1.2, s.nx), rng.uniform(0.3, 1.2, s.nx)
    args = dict(n_points=case['n'], simulation_time=T, step_size=dt, control_dim=s.nu, state_dim=s.nx)
    if case['smp'] == 'lhs':
        args.update(bounds=np.array([lo, hi]), multiplier=40)
    else:
        pdfs = [str(rng.choice(['gaussian', 'uniform', 'constant'])) if i else 'uniform' for i in range(s.nx)]
        prm = np.array([[lo[i], hi[i]] if p == 'uniform' else ([0.2 * lo[i], 0.4] if p == 'gaussian' else [0.2 * hi[i], 0.]) for i, p in enumerate(pdfs)]).T
        args.update(state_pdfs=pdfs, distribution_params=prm)
    rta = obs.call('constructor', s.build, **kw)
    t = obs.call('sample test', Test, rta=rta, **args)
    rows = run_test(obs, t, tmp, rng)
    if rows is None:
        return
    if len(rows) != case['n']:
        obs.violate(f'{len(rows)} rows for {case["n"]} requested points')
        return
    carry = s.build(**kw)   # follows the episodes without resets
    fresh = s.build(**kw)
    k = 0
    for x in seen:
        fresh.reset()
        ok, v, amb = replay(s, fresh, x, dt, T, desired, pred)
        vc = replay(s, carry, x, dt, T, desired, pred)[1] if case['latch'] else v
        det = dict(scenario=s.name, sample=x, expected=v, sampler=case['smp'], margin=amb)
        if amb < 1e-7:
            obs.n('ambiguous')
            if k < len(rows) and np.allclose(rows[k][1], x):
                k += 1
            continue
        if not ok:
            obs.n('unsafe_sample_skipped')
            if k < len(rows) and np.array_equal(rows[k][1], x):
                obs.violate(f'{s.name}: unsafe initial state {x} was recorded', **det)
            continue
        if k >= len(rows) or not np.allclose(rows[k][1], x, rtol=1e-12, atol=1e-12):
            obs.violate(f'{s.name}: the safe sample {x} has no row at its place', row=rows[k] if k < len(rows) else None, **det)
            return
        got = rows[k][0]
        k += 1
        obs.n('rows'), obs.n('real_rows'), obs.n('verdict_true' if v else 'verdict_false')
        if case['latch']:
            obs.n('latched_rows')
        obs.judged((s.name, case['smp'], tuple(np.round(x, 6)), v))
        obs.sample(**det, row=got)
        if got != v:
            if case['latch'] and got == vc:
                obs.known.append(dict(key='sample-test-no-reset', what=f'{s.name} latch {case["latch"]}: {x} recorded {got}, a fresh episode gives {v}', case=case, detail={}))
            else:
                obs.violate(f'{s.name}: {x} recorded {got}, the replayed closed loop says {v}', **det)
    if k != len(rows):
        obs.violate(f'{s.name}: {len(rows)} rows but only {k} safe samples were drawn')


def zoo(case, obs, tmp):
    rng = np.random.default_rng(case['seed'])
    from vp.sut import docking_scn
    s = docking_scn(2, 'easif')
    args = dict(n_points=case['n'], simulation_time=float(rng.choice([20., 30.])), step_size=1.0)
    rta = None
    x = None
    if case['smp'] == 'lhs_default':
        bounds = np.array([[-10000, -10000, -5, -5], [10000, 10000, 5, 5]])
        t = obs.call('zoo sample test', ZS.Docking2DLatinHypercubeRandomSampleTest, **args)
    elif case['smp'] == 'lhs':
        bounds = np.array([[-200., -300., -0.4, -0.5], [250., 150., 0.5, 0.4]])
        bounds = bounds * rng.uniform(0.6, 1.4)
        args.update(bounds=bounds, multiplier=25)
        t = obs.call('zoo sample test', ZS.Docking2DLatinHypercubeRandomSampleTest, **args)
    else:
        bounds = None
        t = obs.call('zoo sample test', ZS.Docking2DParametricRandomSampleTest, **args)
    rows = run_test(obs, t, tmp, rng)
    if rows is None:
        return
    if len(rows) != case['n']:
        obs.violate(f'{len(rows)} rows for {case["n"]} requested points')
        return
    mod = s.build()
    A, B = R.cwh(R.M_CWH, R.N_CWH, 2)
    step = R.LinStep(A, B, 'RK45')
    for got, x in rows:
        obs.n('rows'), obs.n('zoo_rows')
        det = dict(sampler=case['smp'], sample=x, verdict=got)
        if x.shape != (4,):
            obs.violate(f'recorded state {x}', **det)
            return
        if bounds is not None and not (np.all(x >= bounds[0]) and np.all(x <= bounds[1])):
            obs.violate(f'sample {x} outside the bounds', **det)
        mod.reset()
        ok, v, amb = replay(s, mod, x, 1.0, args['simulation_time'], lambda y: np.zeros(2), step)
        if amb < 1e-5:
            obs.n('ambiguous')
            continue
        obs.judged(('zoo', case['smp'], tuple(np.round(x, 4)), v))
        if not ok:
            obs.violate(f'unsafe initial state {x} was recorded', **det)
        elif got != v:
            obs.violate(f'docking sample test: {x} recorded {got}, the replayed closed loop says {v}', **det)
        obs.n('verdict_true' if v else 'verdict_false')

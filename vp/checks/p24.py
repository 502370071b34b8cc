"""P24 tracked episodes and samplers: returned arrays replayed step by step; samples tested for stratification and distribution"""
import numpy as np
from collections import OrderedDict
from scipy import stats
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import UC, PCS, rbase, jnp, SolverError
from vp.checks import p23
from vp.spies import SpyRTA
from run_time_assurance.utils import sample_testing as ST
from run_time_assurance.zoo.cwh import random_sample_testing as ZS

RULE = 'distinct (filter, controller, step) of tracked episodes replayed against an identical fresh filter and the harness dynamics, plus sampler tables tested'
ASSUMPTIONS = ['distribution tests use a fixed seed and p-value threshold 1e-6, so a correct sampler is rejected with negligible probability',
               'an RTA module answers the same for the same call history (P12); the replay runs the same module class on the recorded states']
REQUIRE = {'episodes': 40, 'tracked_step': 250, 'intervening_step': 60, 'not_intervening_step': 40, 'initial_resampled': 10, 'initial_unchecked_unsafe': 4, 'no_safe_state_error': 3, 'early_done': 10, 'status_update': 200, 'lhs_tables': 10, 'lhs_columns': 20,
           'gaussian': 6, 'uniform': 6, 'constant': 6, 'bad_pdf': 2, 'safe_state_query': 200, 'multi_episode': 5, 'long_episode': 4, 'spy_step': 200, 'spy_flag_without_change': 30, 'spy_change_without_flag': 30}


def cases(tier, seed):
    K = 1 if tier == 'quick' else 5
    out = []
    for r in range(K):
        for i, (kind, sysn) in enumerate([('easif', 'di1'), ('esimplex', 'pend'), ('isimplex', 'di1'), ('easif', 'full3'), ('iasif', 'di1'), ('dasif', 'di2'), ('esimplex', 'di2'), ('easif', 'di2')]):
            out.append(dict(part='track', kind=kind, sys=sysn, seed=case_seed(seed, 'p24t', i, r), n=22, w=4, latch=0.4 if sysn == 'pend' else 0))
        for i in range(4):
            out.append(dict(part='lhs', seed=case_seed(seed, 'p24l', i, r), n=6, w=1))
            out.append(dict(part='par', seed=case_seed(seed, 'p24p', i, r), n=2, w=1))
        for i in range(3):
            out.append(dict(part='spy', seed=case_seed(seed, 'p24s', i, r), n=12, w=1))
        out.append(dict(part='zoo', seed=case_seed(seed, 'p24z', r), w=3))
    return out


def run_case(case, obs):
    {'track': track, 'spy': spy, 'lhs': lhs, 'par': par, 'zoo': zoo}[case['part']](case, obs)


def track(case, obs):
    rng = np.random.default_rng(case['seed'])
    s, desired, pred = p23.make_real(dict(case, latch=0), rng)
    kw = {}
    if case['latch']:
        kw['latch_time'] = case['latch']
    rta = obs.call('constructor', s.build, **kw)
    twin = s.build(**kw)
    log = {}

    def capped(x, dt, u):
        y = pred(x, dt, u)
        return np.clip(y, -4, 4) if log['cap'] else y

    class Env(ST.DataTrackingSampleTestingModule):
        def _get_initial_state(self):
            x = log['inits'](self)
            log['drawn'].append(x.copy())
            return x

        def _pred_state(self, state, step_size, control):
            return capped(np.asarray(state, float), step_size, np.asarray(control, float))

        def _desired_control(self, state):
            return desired(np.asarray(state, float))

        def _check_done_conditions(self, state, time):
            if log['stop'] is not None and log['stop'](np.asarray(state, float)):
                return True
            return super()._check_done_conditions(state, time)

        def _update_status(self, state, time):
            log['status'].append((np.array(state, float), float(time)))
    for ep in range(case['n']):
        dt = float(rng.choice([0.125, 0.0625, 0.25]))
        nst = int(rng.integers(1, 14))
        log['cap'] = ep == case['n'] - 1 and case['kind'] in ('easif', 'esimplex')
        if log['cap']:
            nst = int(rng.integers(100, 220))
            obs.n('long_episode')
        mode = int(rng.integers(0, 5))
        check = mode not in (1,)
        pool = [s.draw(rng) for _ in range(300)]
        amb = lambda x: min(min(abs(c.h(x)), abs(c.phi(x))) for c in s.cons.values()) < 1e-7  # noqa
        pool = [x for x in pool if not amb(x)]
        issafe = lambda x: all(c.h(x) >= 0 and c.phi(x) >= 0 for c in s.cons.values())  # noqa
        safe, bad = [x for x in pool if issafe(x)], [x for x in pool if not issafe(x)]
        if not safe or not bad:
            continue
        if mode == 4:
            seq = [bad[i % len(bad)] for i in range(2000)]
        elif check:
            k = int(rng.integers(0, 9)) if rng.random() < 0.7 else int(rng.integers(20, 60))
            seq = [bad[i % len(bad)] for i in range(k)] + safe
            if k:
                obs.n('initial_resampled')
        else:
            seq = [bad[0]] if rng.random() < 0.6 else [safe[0]]
            if seq[0] is bad[0]:
                obs.n('initial_unchecked_unsafe')
        it = iter(seq)
        thr = float(rng.uniform(-0.5, 0.5))
        stop = (lambda x: np.sum(x) > thr) if rng.random() < 0.4 else None
        log.update(inits=lambda self: next(it).copy(), drawn=[], stop=stop, status=[])
        env = obs.call('tracking module', Env, rta=rta, check_init_state=check, simulation_time=nst * dt, step_size=dt, control_dim=s.nu, state_dim=s.nx)
        for x in pool[:20]:
            q = obs.call('check_if_safe_state', env.check_if_safe_state, x.copy())
            obs.n('safe_state_query')
            obs.expect(bool(q) == issafe(x), f'{s.name}: check_if_safe_state({x}) = {q}', values={k: (c.h(x), c.phi(x)) for k, c in s.cons.items()})
        if mode == 4:
            try:
                env.simulate_episode()
                obs.violate('an episode ran although every initial state is unsafe')
            except ValueError:
                obs.n('no_safe_state_error')
            except StopIteration:
                obs.violate('no error after 2000 unsafe initial states')
            continue
        if ep and (case['latch'] or rng.random() < 0.4):
            rta.reset()
            twin.reset()
        elif ep:
            obs.n('multi_episode')
        X, U, I = obs.call('simulate_episode', env.simulate_episode)
        X, U, I = np.asarray(X, float), np.asarray(U, float), np.asarray(I)
        obs.n('episodes')
        det = dict(scenario=s.name, dt=dt, states=X[:5], controls=U[:5], flags=I[:5], nsteps=nst)
        if X.shape[1:] != (s.nx,) or U.shape != (len(X), s.nu) or I.shape != (len(X),):
            obs.violate(f'{s.name}: arrays of shapes {X.shape}, {U.shape}, {I.shape}', **det)
            return
        first = log['drawn'][-1]
        obs.expect(np.array_equal(X[0], first), f'{s.name}: first state {X[0]}, drawn {first}', **det)
        if check:
            obs.expect(issafe(X[0]), f'{s.name}: episode started from the unsafe state {X[0]}', **det)
            obs.expect(all(not issafe(x) for x in log['drawn'][:-1]), f'{s.name}: a safe initial state was rejected', **det)
        obs.expect(not np.any(U[0]) and not I[0], f'{s.name}: row 0 has control {U[0]}, intervening {I[0]}', **det)
        t = 0.
        for k in range(1, len(X)):
            u = twin.filter_control(X[k - 1].copy(), dt, desired(X[k - 1]))
            t += dt
            obs.n('tracked_step')
            obs.n('intervening_step' if I[k] else 'not_intervening_step')
            obs.judged((s.name, ep, k, tuple(np.round(X[k], 6))), nontrivial=bool(I[k]))
            d2 = dict(det, k=k, state=X[k - 1], control=U[k], flag=bool(I[k]))
            obs.sample(**d2)
            if not np.allclose(U[k], u, rtol=1e-9, atol=1e-12):
                obs.violate(f'{s.name}: recorded control {U[k]} at step {k}, the filter answers {u} for the recorded state', **d2)
                return
            if bool(I[k]) != bool(twin.intervening):
                obs.violate(f'{s.name}: recorded intervening {I[k]} at step {k}, the filter reports {twin.intervening}', **d2)
                return
            if not np.allclose(X[k], capped(X[k - 1], dt, U[k]), rtol=1e-12, atol=1e-12):
                obs.violate(f'{s.name}: state {X[k]} at step {k} is not the successor of {X[k - 1]} under {U[k]}', **d2)
                return
            done = t >= nst * dt or (stop is not None and stop(X[k]))
            if done != (k == len(X) - 1):
                obs.violate(f'{s.name}: done={done} at step {k} of {len(X) - 1}', **d2)
                return
        if len(X) < 2:
            obs.violate(f'{s.name}: no step was simulated', **det)
            return
        if len(X) - 1 < nst:
            obs.n('early_done')
        st = log['status']
        obs.n('status_update', len(st))
        if len(st) != len(X) - 1 or any(not np.array_equal(a, X[k + 1]) or abs(b - (k + 1) * dt) > 1e-12 for k, (a, b) in enumerate(st)):
            obs.violate(f'{s.name}: status updates do not follow the episode', status=st[:4], **det)
        log.update(drawn=[], inits=lambda self: safe[0].copy())
        if rng.random() < 0.3:
            obs.call('run_one_step', env.run_one_step)
            twin.filter_control(safe[0].copy(), dt, desired(safe[0]))
            obs.n('run_one_step')


def spy(case, obs):
    """a module of another kind than the library's, with scripted flags: what it returned and reported is what is tracked"""
    rng = np.random.default_rng(case['seed'])
    nu, nx = int(rng.integers(1, 4)), int(rng.integers(1, 5))
    W, z = rng.normal(size=(nx, nu)), rng.normal(size=nx)
    log = []
    ph = float(rng.uniform(0, 6))
    rta = SpyRTA('spy', log, lambda x, dt, u: u if np.sin(7 * x[0] + ph) > 0 else 0.5 * u + 0.1, lambda x, u: np.sin(11 * x[0] + 2 * ph) > 0)
    for ep in range(case['n']):
        dt, nst = float(rng.choice([0.125, 0.5])), int(rng.integers(1, 20))
        x0 = rng.normal(size=nx)
        ud = rng.normal(size=nu)

        class Env(ST.DataTrackingSampleTestingModule):
            def _get_initial_state(self):
                return x0.copy()

            def _pred_state(self, state, step_size, control):
                return np.asarray(state, float) * 0.97 + step_size * (W @ np.asarray(control, float)) + 0.05 * z

            def _desired_control(self, state):
                return ud * np.cos(np.asarray(state, float)[0])
        env = obs.call('tracking module', Env, rta=rta, check_init_state=False, simulation_time=nst * dt, step_size=dt, control_dim=nu, state_dim=nx)
        log.clear()
        X, U, I = obs.call('simulate_episode', env.simulate_episode)
        det = dict(states=X[:4], controls=U[:4], flags=I[:4], dt=dt, steps=nst)
        if len(X) != nst + 1 or len(U) != nst + 1 or len(I) != nst + 1 or len(log) != nst:
            obs.violate(f'{nst} steps: arrays of {len(X)}, {len(U)}, {len(I)} rows, {len(log)} filter calls', **det)
            return
        x = x0
        for k in range(1, nst + 1):
            d = ud * np.cos(x[0])
            u = rta.fn(x, dt, d)
            fl = bool(rta.flag(x, d))
            obs.n('spy_step')
            same = np.array_equal(u, d)
            if fl and same:
                obs.n('spy_flag_without_change')
            if not fl and not same:
                obs.n('spy_change_without_flag')
            obs.judged(('spy', case['seed'], ep, k))
            if not np.allclose(U[k], u, rtol=1e-9, atol=1e-12) or bool(I[k]) != fl:
                obs.violate(f'step {k}: recorded control {U[k]}, intervening {I[k]}; the module returned {u} and reported {fl}', **det)
                return
            x = x * 0.97 + dt * (W @ u) + 0.05 * z
            if not np.allclose(X[k], x, rtol=1e-9, atol=1e-9):
                obs.violate(f'step {k}: recorded state {X[k]}, successor {x}', **det)
                return
            x = np.asarray(X[k], float)


def dummy_rta():
    class D(rbase.ConstraintBasedRTA):
        def _setup_constraints(self):
            return OrderedDict(A=UC(lambda xp, x, p: 1. + 0 * x[0], alpha=PCS([0, 1.])))

        def _filter_control(self, state, step_size, control):
            return control
    return D()


def lhs(case, obs):
    rng = np.random.default_rng(case['seed'])
    rta = dummy_rta()

    class T(ST.LatinHypercubeRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state
    for i in range(case['n']):
        d, n, m = int(rng.integers(1, 7) if i % 3 else rng.integers(7, 14)), int(rng.integers(1, 40)), int(rng.integers(1, 5))
        lo = rng.normal(size=d) * 10.**rng.uniform(-2, 3)
        hi = lo + 10.**rng.uniform(-2, 3, d)
        t = obs.call('LatinHypercube', T, rta=rta, n_points=n, simulation_time=1., step_size=1., control_dim=1, state_dim=d, bounds=np.array([lo, hi]), multiplier=m)
        S = np.array([obs.call('_get_initial_state', t._get_initial_state) for _ in range(n * m)])
        obs.n('lhs_tables')
        if S.shape != (n * m, d):
            obs.violate(f'samples of shape {S.shape} for {n}x{m} points of dimension {d}')
            return
        if np.any(S < lo) or np.any(S > hi):
            obs.violate('Latin-hypercube sample outside the bounds', bounds=[lo, hi], samples=S[:5])
        for j in range(d):
            z = (S[:, j] - lo[j]) / (hi[j] - lo[j]) * n * m
            cell = np.sort(np.floor(z))
            obs.n('lhs_columns')
            obs.judged(('lhs', d, n, m, j))
            near = np.min(np.abs(z - np.round(z)))
            if near < 1e-6:
                obs.n('ambiguous')
                continue
            if not np.array_equal(cell, np.arange(n * m)):
                obs.violate(f'dimension {j} is not stratified: {n * m} samples fall into {len(set(cell))} strata', bounds=[lo, hi], n=n, m=m)
    obs.sample(dim=d, points=n, multiplier=m)


def par(case, obs):
    rng = np.random.default_rng(case['seed'])
    rta = dummy_rta()

    class T(ST.ParametricRandomSampleTestingModule):
        def _pred_state(self, state, step_size, control):
            return state
    for i in range(case['n']):
        pdfs = ['gaussian', 'uniform', 'constant', 'uniform', 'gaussian', 'constant'] * [1, 2][i % 2]
        d = len(pdfs)
        rng.shuffle(pdfs)
        pdfs = [str(p) for p in pdfs]
        a = rng.normal(size=d) * 10.**rng.uniform(-1, 2)
        b = np.array([10.**rng.uniform(-1, 2) if p == 'gaussian' else a[j] + 10.**rng.uniform(-1, 2) for j, p in enumerate(pdfs)])
        prm = np.array([a, b])
        t = obs.call('Parametric', T, rta=rta, n_points=5, simulation_time=1., step_size=1., control_dim=1, state_dim=d, state_pdfs=pdfs, distribution_params=prm)
        S = np.array([obs.call('_get_initial_state', t._get_initial_state) for _ in range(600)])
        if S.shape != (600, d):
            obs.violate(f'samples of shape {S.shape}')
            return
        for j, p in enumerate(pdfs):
            obs.n(p)
            obs.judged(('par', p, j, round(a[j], 3)))
            if p == 'constant':
                obs.expect(bool(np.all(S[:, j] == a[j])), f'component {j} should be constant {a[j]}', got=S[:5, j])
                continue
            dist = stats.norm(a[j], b[j]) if p == 'gaussian' else stats.uniform(a[j], b[j] - a[j])
            if p == 'uniform':
                obs.expect(bool(np.all((S[:, j] >= a[j]) & (S[:, j] <= b[j]))), f'component {j} leaves [{a[j]}, {b[j]}]', got=S[:5, j])
            pv = stats.kstest(S[:, j], dist.cdf).pvalue
            obs.expect(pv > 1e-6, f'component {j} does not follow {p}({a[j]}, {b[j]}): p={pv:.2g}', mean=S[:, j].mean(), std=S[:, j].std())
        for j in range(d):
            for k in range(j):
                if 'constant' not in (pdfs[j], pdfs[k]):
                    r = stats.spearmanr(S[:, j], S[:, k]).pvalue
                    obs.expect(r > 1e-7, f'components {j} and {k} are not sampled independently: p={r:.2g}')
        t2 = obs.call('Parametric', T, rta=rta, n_points=5, simulation_time=1., step_size=1., control_dim=1, state_dim=2, state_pdfs=['gaussian', 'beta'], distribution_params=np.array([[0, 0], [1, 1]]))
        try:
            t2._get_initial_state()
            obs.violate('an unknown distribution name was accepted')
        except ValueError:
            obs.n('bad_pdf')


def zoo(case, obs):
    """defaults of the docking sample tests"""
    t = obs.call('zoo', ZS.Docking2DLatinHypercubeRandomSampleTest, n_points=50)
    S = np.array([t._get_initial_state() for _ in range(150)])
    lo, hi = np.array([-1e4, -1e4, -5, -5]), np.array([1e4, 1e4, 5, 5])
    obs.expect(bool(np.all(S >= lo) and np.all(S <= hi)), 'default docking samples leave the default bounds')
    for j in range(4):
        z = np.sort(np.floor((S[:, j] - lo[j]) / (hi[j] - lo[j]) * 150))
        obs.expect(np.array_equal(z, np.arange(150)), f'default docking samples are not stratified in dimension {j}')
        obs.judged(('zoo', j))
    p = obs.call('zoo', ZS.Docking2DParametricRandomSampleTest)
    S = np.array([p._get_initial_state() for _ in range(800)])
    for j, sd in enumerate([5000, 5000, 2, 2]):
        pv = stats.kstest(S[:, j], stats.norm(0, sd).cdf).pvalue
        obs.expect(pv > 1e-6, f'default docking component {j} does not follow N(0, {sd}): p={pv:.2g}')
        obs.judged(('zoop', j))

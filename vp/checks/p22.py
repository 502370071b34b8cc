"""P22 delta-v filter: trace checker of the latch automaton with an independent prediction, plus closed-loop budget monitor"""
import numpy as np
import scipy.linalg
from vp.core import case_seed
from vp import lib, ref as R
from vp import sut
from vp.sut import z1, jnp
from vp.sut import bounds_variants

RULE = 'distinct (configuration, phase, state, desired control) at which the returned control and flag were compared with the reference automaton; calls whose predicted delta-v is far below the limit are not counted'
ASSUMPTIONS = ['the backup gains are the 12-state integral LQR gains; where scipy rejects the Riccati equation the real constructor is run with a slightly shifted design (known finding) and the reference uses the same design',
               'a desired control outside the bounds may be predicted with or without saturation: calls where that changes the decision are not judged']
REQUIRE = {'pass': 250, 'first_latch': 40, 'latched': 400, 'near_limit': 60, 'reset': 30, 'reenabled_latched': 10, 'relatch_after_reset': 20, 'closed_loop_step': 300, 'closed_loop_latched': 10, 'saturated_backup': 6, 'construction': 10}

CFG = [dict(), dict(m=100), dict(m=12, n=0.1), dict(m=30, n=0.02), dict(delta_v_limit=5.), dict(n_steps=20), dict(n_steps=1), dict(n_steps=60, delta_v_limit=1.5), dict(m=100, n_steps=40, delta_v_limit=10.),
       dict(n_steps=1400), dict(m=40, n_steps=900, delta_v_limit=8.)]


def cases(tier, seed):
    out = []
    K = 1 if tier == 'quick' else 5
    for r in range(K):
        for i, c in enumerate(CFG):
            for b in range(2):
                rng = np.random.default_rng(case_seed(seed, 'p22b', i, b, r))
                kw = dict(c)
                if b and 'n_steps' not in kw:
                    kw['n_steps'] = int(rng.integers(2, 120))
                if b and 'delta_v_limit' not in kw:
                    kw['delta_v_limit'] = float(rng.uniform(2, 40))
                ns = kw.get('n_steps', 500)
                out.append(dict(part='trace', kw=kw, bounds=b and int(rng.integers(1, 1000)), seed=case_seed(seed, 'p22', i, b, r), n=int(120 if ns < 130 else 60 if ns < 600 else 30), w=2 + ns / 100))
            if c.get('n_steps', 0) != 1:
                kw = dict(c)
                kw.setdefault('n_steps', 120)
                out.append(dict(part='loop', kw=kw, seed=case_seed(seed, 'p22l', i, r), n=3, w=3))
        for j in range(3):
            out.append(dict(part='construct', seed=case_seed(seed, 'p22c', r, j), n=6))
    return out


class Ref:
    def __init__(self, kw, shifted):
        self.m, self.n, self.lim, self.ns = kw.get('m', R.M_CWH), kw.get('n', R.N_CWH), kw.get('delta_v_limit', 20), kw.get('n_steps', 500)
        self.A, self.B = R.cwh(self.m, self.n, 3)
        Ai = np.zeros((12, 12))
        Ai[:6, :6], Ai[6:, :6] = self.A, np.eye(6)
        Bi = np.zeros((12, 3))
        Bi[:6] = self.B
        Q, Rm = 1e-5 * np.eye(12), 1e5 * np.eye(3)
        P = None
        if shifted:
            P = sut._care(Ai - 1e-3 * np.eye(12), Bi, Q, Rm)
        else:
            for k in range(40):
                try:
                    P = sut._care(Ai * (1 + (1e-15 * np.random.default_rng(k).normal(size=Ai.shape) if k else 0)), Bi, Q, Rm)
                    break
                except Exception:  # noqa
                    continue
        self.K = np.linalg.solve(Rm, Bi.T @ P)
        self.reset()

    def reset(self):
        self.latched, self.ei = False, np.zeros(6)

    def err(self, x):
        return np.array([0, 0, 0, x[3] - self.n / 2 * x[1], x[4] + 2 * self.n * x[0], 0])

    def backup(self, x, dt, ei):
        e = self.err(x)
        return np.clip(-self.K @ np.r_[e, ei], -1, 1), ei + dt * e

    def pred(self, x, dt, u):
        return np.r_[x[:6] + dt * (self.A @ x[:6] + self.B @ u), x[6] - self.n * dt, x[7] + dt * np.sum(np.abs(u)) / self.m]

    def future(self, x, dt, u):
        y, ei = self.pred(x, dt, u), self.ei
        for _ in range(self.ns):
            b, ei = self.backup(y, dt, ei)
            y = self.pred(y, dt, b)
        return y[7]


def build(obs, kw, **bounds):
    f0 = sut.CARE_FALLBACKS[0]
    mod = obs.call(f'SwitchingDeltaVLimitRTA({kw})', z1.SwitchingDeltaVLimitRTA, **kw, **bounds)
    obs.n('construction')
    shifted = sut.CARE_FALLBACKS[0] > f0
    return mod, Ref(kw, shifted), shifted


def run_case(case, obs):
    {'trace': trace, 'loop': loop, 'construct': construct}[case['part']](case, obs)


def construct(case, obs):
    """default construction without any help"""
    rng = np.random.default_rng(case['seed'])
    for kw in [dict()] + [dict(delta_v_limit=float(rng.uniform(1, 30)), n_steps=int(rng.integers(1, 50))) for _ in range(2)]:
        raised = []

        def plain(*a, **k):
            try:
                return sut._care(*a, **k)
            except Exception as e:  # noqa
                raised.append(e)
                raise
        scipy.linalg.solve_continuous_are = plain
        try:
            z1.SwitchingDeltaVLimitRTA(**kw)
        except Exception as e:  # noqa
          if raised and raised[-1] is e:
            obs.known.append(dict(key='care-default-construction', what=f'SwitchingDeltaVLimitRTA({kw}) raised LinAlgError: {e}', case=case, detail={}))
            obs.n('native_construction_fails')
          else:
            obs.violate(f'SwitchingDeltaVLimitRTA({kw}) raised {type(e).__name__}: {e}')
        finally:
            scipy.linalg.solve_continuous_are = sut._care_retry
        mod, ref, _ = build(obs, kw)
        # the law itself: gains observed through the first latched calls
        x = np.r_[rng.normal(size=3) * 50, rng.normal(size=3) * 0.01, 0., 1e3]
        u = obs.call('filter_control', mod.filter_control, x, 1.0, np.zeros(3))
        b, _ = ref.backup(x, 1.0, np.zeros(6))
        obs.judged(('construct', repr(kw)))
        obs.expect(lib.same(u, b, 1e-6), f'backup control {np.asarray(u)} of {kw}, reference design gives {b}', state=x)


def state(rng, ref):
    p = rng.normal(size=3) * 10.**rng.uniform(0, 2.5)
    if rng.random() < 0.5:     # close to a closed relative orbit: gentle backup control
        v = np.array([ref.n / 2 * p[1], -2 * ref.n * p[0], 0.]) + rng.normal(size=3) * 10.**rng.uniform(-4, -1)
    else:
        v = rng.normal(size=3) * 10.**rng.uniform(-2, 0)
    return np.r_[p, v, rng.uniform(-3, 3), rng.uniform(0, ref.lim)]


def trace(case, obs):
    rng = np.random.default_rng(case['seed'])
    kw = case['kw']
    lo, hi = -1, 1
    bk = {}
    if case['bounds']:
        lo, hi = bounds_variants(3, 1., np.random.default_rng(case['bounds']))
        bk = dict(control_bounds_low=lo, control_bounds_high=hi)
    mod, ref, sh = build(obs, kw, **bk)
    was = False
    disabled = False
    reen = False
    hold = int(rng.integers(3, 15))
    for i in range(case['n']):
        dt = float(rng.choice([1.0, 0.5, 2.0, 10.0]))
        x = state(rng, ref)
        ud = rng.uniform(-1, 1, 3) * rng.choice([0.01, 0.3, 1., 1.])
        if rng.random() < 0.1:
            ud = rng.normal(size=3) * 3
        if rng.random() < 0.06:
            ud = np.round(2 * ud)
        if ref.latched:
            hold -= 1
            if hold <= 0 or rng.random() < 0.03:
                obs.call('reset', mod.reset)
                ref.reset()
                obs.n('reset')
                hold = int(rng.integers(3, 15))
                was = True
            elif rng.random() < 0.08:
                mod.enable = False
                u = obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud))
                mod.enable = True
                reen = True
        if not ref.latched:
            # place the predicted use around the limit
            used = ref.future(np.r_[x[:7], 0.], dt, ud)
            t = rng.integers(0, 4)
            d = {0: rng.uniform(0.2, 1) * ref.lim, 1: 10.**rng.uniform(-6, -1), 2: -10.**rng.uniform(-6, -1), 3: 10.**rng.uniform(-2, 1)}[int(t)]
            if rng.random() < 0.5 and t == 2:
                d = abs(d)
            x[7] = ref.lim - used - d
            if abs(d) < 0.05:
                obs.n('near_limit')
        xin = jnp.array(x) if rng.random() < 0.3 else np.array(x)
        u = obs.call('filter_control', mod.filter_control, xin, dt, lib.u_in(rng, ud))
        det = dict(kw=kw, bounds=[lo, hi], step=i, state=x, dt=dt, desired=ud, returned=u, latched=ref.latched, intervening=mod.intervening)
        if ref.latched:
            b, ref.ei = ref.backup(x, dt, ref.ei)
            want, flag, ph = R.clip(b, lo, hi), True, 'latched'
            obs.n('latched')
            if reen:
                obs.n('reenabled_latched')
                reen = False
            if np.any(np.abs(b) == 1):
                obs.n('saturated_backup')
        else:
            f1, f2 = ref.future(x, dt, ud), ref.future(x, dt, R.clip(ud, lo, hi))
            m1, m2 = ref.lim - f1, ref.lim - f2
            if min(abs(m1), abs(m2)) < 1e-7 * (1 + ref.lim) or (m1 > 0) != (m2 > 0):
                obs.n('ambiguous')
                # follow whatever the module did
                if bool(mod.intervening):
                    b, ref.ei = ref.backup(x, dt, ref.ei)
                    ref.latched = True
                continue
            if m1 < 0:
                b, ref.ei = ref.backup(x, dt, ref.ei)
                ref.latched = True
                want, flag, ph = R.clip(b, lo, hi), True, 'first latch'
                obs.n('first_latch')
                if was:
                    obs.n('relatch_after_reset')
            else:
                want, flag, ph = R.clip(ud, lo, hi), False, 'pass'
                obs.n('pass')
            det['predicted_delta_v'] = f1
        obs.judged((repr(kw), ph, tuple(np.round(x, 5)), tuple(np.round(ud, 5))), nontrivial=ph != 'pass' or ref.lim - f1 < 1)
        obs.sample(phase=ph, expected=want, **det)
        if not lib.same(u, want, 1e-5):
            obs.violate(f'{kw} {ph}: returned {np.asarray(u)}, expected {want}', expected=want, **det)
        if bool(mod.intervening) != flag:
            obs.violate(f'{kw} {ph}: intervening={mod.intervening}, expected {flag}', **det)


def loop(case, obs):
    """closed loop with the simulated spacecraft: the budget is respected for the whole prediction horizon"""
    rng = np.random.default_rng(case['seed'])
    kw = case['kw']
    mod, ref, sh = build(obs, kw)
    for ep in range(case['n']):
        if ep:
            obs.call('reset', mod.reset)
            obs.n('reset')
            ref.reset()
        dt = float(rng.choice([1.0, 2.0]))
        for _ in range(50):
            x = state(rng, ref)
            x[:3] *= 0.2
            x[3:6] *= 0.1
            x[7] = max(0., ref.lim - ref.future(np.r_[x[:7], 0.], dt, np.zeros(3)) - rng.uniform(0.05, 0.6))
            if ref.future(x, dt, np.zeros(3)) < ref.lim - 0.04 and x[7] < ref.lim:
                break
        else:
            obs.n('no_safe_start')
            continue
        mode = int(rng.integers(0, 3))
        since = None
        # the very first call must pass for the guarantee to start
        for k in range(150):
            ud = [rng.choice([-1., 1.], 3), np.ones(3), rng.uniform(-0.3, 0.3, 3)][mode]
            if k == 0:
                ud = np.zeros(3)
            u = np.asarray(obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud)), float)
            x = ref.pred(x, dt, u)
            obs.n('closed_loop_step')
            if mod.intervening and since is None:
                since = k
                obs.n('closed_loop_latched')
            if since == 0:
                obs.n('started_latched')
                break
            obs.judged((repr(kw), ep, k, round(x[7], 4)))
            if since is not None and k - since >= ref.ns - 1:
                break
            if x[7] > ref.lim + 1e-6:
                obs.violate(f'{kw}: delta-v used is {x[7]:.6f}, limit {ref.lim}, {k - (since if since is not None else k)} steps after latching', state=x, kw=kw, dt=dt)
                break
            if since is not None and not mod.intervening:
                obs.violate(f'{kw}: latch released without reset', state=x)
                break

"""P20 zoo physics and parameter plumbing: zoo filters built with arbitrary parameters compared with a reference built from the same numbers"""
import numpy as np
import jax
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import z1, z2, z3, zi, UBackup, jnp
from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
from vp.checks import p03, p06, p07, p08

RULE = 'distinct (class, parameter set, state) at which matrices, next states, backup controls, constraint values or filter decisions of a zoo filter were compared with the reference built from the same parameters'
ASSUMPTIONS = ['the acceleration used by the inspection barriers is (1 N)/m - 3 n^2 r_max - 2 n v_max as in the code (the thrust constant is not a constructor parameter)',
               'predicted states of RK45 modules are judged up to the tolerance of the adaptive integrator']
REQUIRE = {'matrix': 100, 'backup_control': 300, 'backup_jacobian': 100, 'field': 400, 'constraint_value': 3000, 'discrete_next': 60, 'switch': 80, 'pass': 60, 'modified': 200, 'custom_backup': 30, 'default_backup_in_filter': 30,
           'defaults': 15, 'short_state': 100}

CASES = [('integrator', 'esimplex'), ('integrator', 'isimplex'), ('integrator', 'easif'), ('integrator', 'iasif')] + \
        [(f'docking{d}', k) for d in (2, 3) for k in ('esimplex', 'isimplex', 'easif', 'iasif')] + [('insp1', 'easif'), ('insp1', 'easif'), ('insp1', 'dasif'), ('inspn2', 'easif'), ('inspn3', 'easif'), ('inspn4', 'easif')]
REQUIRE.update({'nearly_perpendicular': 60, 'many_deputies': 10})


def over_of(fam, kind, rng):
    u = rng.uniform
    f = lambda a, b: float(np.round(u(a, b), 6))  # noqa
    o = {}
    p = 0.75
    def put(k, v):
        if rng.random() < p:
            o[k] = v
    if fam == 'integrator':
        put('m', f(0.4, 3))
        if kind != 'easif':
            put('integration_method', str(rng.choice(['Euler', 'RK45'])))
    elif fam.startswith('docking'):
        put('m', f(5, 40))
        put('n', f(0.0006, 0.01))
        put('v0', f(0.05, 0.6))
        put('v1_coef', f(1, 5))
        put('v0_distance', f(0, 30))
        for a in 'xyz'[:int(fam[-1])]:
            put(a + '_vel_limit', f(0.5, 8))
        if kind != 'easif':
            put('integration_method', str(rng.choice(['Euler', 'RK45'])))
    else:
        put('m', f(8, 16))
        put('n', f(0.0005, 0.0016))
        put('chief_radius', f(2, 9))
        put('deputy_radius', f(2, 9))
        put('v0', f(0.1, 0.5))
        put('v1_coef', f(1, 4))
        put('v0_distance', f(0, 15))
        put('r_max', f(600, 1200))
        put('fov', f(0.5, 1.6))
        put('vel_limit', f(0.6, 2))
        put('sun_vel', f(-0.003, 0.003))
    if kind in ('isimplex', 'iasif'):
        put('backup_window', float(rng.choice([1.0, 2.0, 3.0, 4.0, 6.0])))
    return o


def cases(tier, seed):
    out = []
    K = 1 if tier == 'quick' else 6
    N = 12 if tier == 'quick' else 40
    for i in range(K):
        out.append(dict(part='matrix', seed=case_seed(seed, 'p20m', i), n=100, w=1))
        for c in ('2', '3', 'i'):
            out.append(dict(part='backup', which=c, seed=case_seed(seed, 'p20b', c, i), n=60, w=4))
        for fam in ('insp1', 'inspn2', 'inspn3'):
            out.append(dict(part='short', fam=fam, seed=case_seed(seed, 'p20s', fam, i), n=40, w=5))
        out.append(dict(part='params', spec=dict(fam='inspn6', kind='easif', over=dict(deputy_radius=3.5, vel_limit=0.9)), seed=case_seed(seed, 'p20six', i), n=14, jit=True, w=24, cbk=False))
    for i, (fam, kind) in enumerate(CASES):
        for r in range(3 * K):
            rng = np.random.default_rng(case_seed(seed, 'p20o', i, r))
            over = {} if r == 0 else over_of(fam, kind, rng)
            if i == len(CASES) - 5:
                over['use_hocbf'] = True
            spec = dict(fam=fam, kind=kind, over=over)
            if r and rng.random() < 0.6:
                spec.update(bounds='var', bseed=int(rng.integers(1000)))
            if 'backup_window' in over:
                spec['window'] = over.pop('backup_window')
            heavy = fam.startswith('insp')
            out.append(dict(part='params', spec=spec, seed=case_seed(seed, 'p20', i, r), n=N * (3 if heavy else 1), jit=True, w={'inspn2': 10, 'inspn3': 14, 'inspn4': 18}.get(fam, 5 if heavy else 3),
                            cbk=bool(r % 3 == 1 and kind in ('esimplex', 'isimplex', 'iasif'))))
    return out


def close(a, b, tol):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.abs(b))))


def run_case(case, obs):
    {'matrix': matrix, 'backup': backup, 'params': params, 'short': short}[case['part']](case, obs)


def matrix(case, obs):
    rng = np.random.default_rng(case['seed'])
    for i in range(case['n']):
        m, n = float(10.**rng.uniform(-1, 3)), float(10.**rng.uniform(-4, 0))
        dim = int(rng.integers(2, 4))
        args = dict(mode=f'{dim}d')
        if dim == 2 and rng.random() < 0.3:
            args = {}
        A, B = obs.call('generate_cwh_matrices', generate_cwh_matrices, m, n, **args)
        Ar, Br = R.cwh(m, n, dim)
        obs.n('matrix')
        obs.judged(('matrix', dim, round(m, 6), round(n, 6)))
        obs.expect(close(A, Ar, 1e-14) and close(B, Br, 1e-14), f'{dim}d CWH matrices for m={m}, n={n} differ from the equations', A=A, B=B, m=m, n=n)
        # elements of very different size: compare relatively, element by element
        for X, Y in ((A, Ar), (B, Br)):
            X, Y = np.asarray(X), np.asarray(Y)
            if X.shape == Y.shape:
                obs.expect(bool(np.all(np.abs(X - Y) <= 1e-12 * np.abs(Y))), f'{dim}d CWH matrix entry for m={m}, n={n} wrong', got=X, want=Y)


def backup(case, obs):
    rng = np.random.default_rng(case['seed'])
    w = case['which']
    for k in range(3):
        kw = {} if k == 0 else dict(m=float(rng.uniform(2, 60)), n=float(10.**rng.uniform(-3.5, -1)))
        if w == 'i':
            ctl = obs.call('backup controller', zi.Integrator1dDockingBackupController)
            nx, ref, J = 2, lambda x: np.array([-1.]), np.zeros((1, 2))
        else:
            dim = int(w)
            ctl = obs.call('backup controller', {2: z2.Docking2dStopLQRBackupController, 3: z3.Docking3dStopLQRBackupController}[dim], **kw)
            K = R.lqr_stop(kw.get('m', R.M_CWH), kw.get('n', R.N_CWH), dim)
            nx, ref, J = 2 * dim, lambda x, K=K: -K @ x, -K
        for i in range(case['n']):
            x = rng.normal(size=nx) * 10.**rng.uniform(-2, 3)
            dt = float(rng.choice([0.1, 1.0]))
            u = obs.call('generate_control', ctl.generate_control, jnp.array(x), dt)
            obs.n('backup_control')
            obs.judged(('backup', w, k, tuple(np.round(x, 5))))
            obs.expect(close(u, ref(x), 1e-6), f'backup control of {type(ctl).__name__}({kw}) at {x} is {np.asarray(u)}, expected {ref(x)}', state=x, kw=kw)
            if i % 3 == 0:
                j = obs.call('jacobian', ctl.jacobian, jnp.array(x), dt)
                obs.n('backup_jacobian')
                obs.expect(close(np.asarray(j).reshape(J.shape), J, 1e-6), f'backup jacobian of {type(ctl).__name__}({kw})', got=j, want=J)
            if i % 20 == 19:
                obs.call('reset', ctl.reset)


class Cut:
    """forwards to a filter, passing states without their trailing sun angle"""

    def __init__(self, mod, k):
        self._m, self._k = mod, k

    def __getattr__(self, a):
        return getattr(self._m, a)

    def filter_control(self, x, dt, u):
        return self._m.filter_control(x[:self._k], dt, u)


def short(case, obs):
    """a state without sun angle means a sun at angle zero that the dynamics leave there; the cone constraint keeps the configured sun speed in its velocity term"""
    rng = np.random.default_rng(case['seed'])
    cut = {'insp1': 6, 'inspn2': 12, 'inspn3': 18}[case['fam']]
    m, v, f = float(rng.uniform(9, 15)), float(rng.choice([-1, 1]) * rng.uniform(0.001, 0.02)), float(rng.uniform(0.8, 1.6))
    s = lib.mk(dict(fam=case['fam'], kind='easif', over=dict(m=m, fov=f, sun_vel=v)))
    f0 = s.f
    def still(x):
        d = np.array(f0(x), float)
        d[cut] = 0.
        return d
    s.f = still
    mod = Cut(obs.call('constructor', s.build), cut)
    for i in range(case['n']):
        x, ud = s.draw(rng), s.draw_u(rng) * 2
        x[cut:] = 0.
        if rng.random() < 0.5:    # near the keep-out cone of a sun at angle zero
            r = rng.uniform(30, 400)
            a = f / 2 + rng.uniform(0, 0.02)
            b = rng.uniform(0, 2 * np.pi)
            x[:3] = r * np.array([np.cos(a), np.sin(a) * np.cos(b), np.sin(a) * np.sin(b)]) * (-1 if rng.random() < 0.5 else 1)
            x[3:6] *= 0.05
        _, w, q = lib.check_qp(obs, s, mod, x, 1.0, ud, rel=1e-8, rng=rng, tag='short')
        obs.n('short_state')


def params(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    kw = {}
    if case.get('cbk'):
        g = rng.uniform(0.05, 0.4)
        M = np.hstack([0.001 * rng.normal(size=(s.nu, s.nx - s.nu)), -g * np.eye(s.nu)])
        if sp['fam'] == 'integrator':
            M = np.array([[-0.1, -0.8]])
        law = lambda xp, x, M=M: xp.array(M) @ x  # noqa
        kw['backup_controller'] = UBackup(law)
        s.backup = lambda x, M=M: M @ x
        A0 = np.stack([s.f(e) - s.f(np.zeros(s.nx)) for e in np.eye(s.nx)], axis=1)
        s.jacb = lambda x, M=M: A0 + s.g(x) @ M
    mod = obs.call(f'constructor({sp})', s.build, jit_enable=case['jit'], **kw)
    name = s.name
    if not sp.get('over') and not case.get('cbk') and sp.get('bounds') is None:
        obs.n('defaults')
    # constraint set
    if list(mod.constraints) != list(s.cons) and set(mod.constraints) != set(s.cons):
        obs.violate(f'{name}: constraints {sorted(mod.constraints)} instead of {sorted(s.cons)}', spec=sp)
        return
    if s.kind in ('isimplex', 'iasif'):
        obs.expect(float(mod.backup_window) == float(s.window), f'{name}: backup window {mod.backup_window} instead of {s.window}')
    cfn = {k: jax.jit(lambda x, p, c=c: c(x, p)) for k, c in mod.constraints.items()}
    nd = int(sp['fam'][5:]) if sp['fam'].startswith('inspn') else 1
    for i in range(case['n'] * 2):
        x = s.draw(rng)
        if nd > 1 and i % 2:      # another deputy nearly at a right angle to the sun, as seen from the own one
            j, e = int(rng.integers(1, nd)), float(rng.choice([-1, 1]) * 10.**rng.uniform(-4, -1.5))
            c = np.array([np.cos(x[6 * nd]), np.sin(x[6 * nd]), 0.])
            o = np.cross(c, rng.normal(size=3))
            o = o / np.linalg.norm(o) + e * c
            x[6 * j:6 * j + 3] = x[:3] - o * rng.uniform(20, 300)
            obs.n('nearly_perpendicular')
        if nd > 5:
            obs.n('many_deputies')
        for k, c in s.cons.items():
            v = float(obs.call(f'constraint {k}', cfn[k], jnp.array(x), {a: float(b) for a, b in mod.constraints[k].params.items()}))
            h = c.h(x)
            t = lib.htol(c, x, 1e-9)
            obs.n('constraint_value')
            obs.judged((name, k, tuple(np.round(x, 5)), repr(sp.get('over'))))
            if not abs(v - h) <= t * 10 + 1e-9:
                obs.violate(f'{name}({sp.get("over")}): constraint {k} is {v} at {x}, expected {h}', spec=sp, state=x)
        if s.kind in ('easif', 'iasif'):
            fx, gx = obs.call('state_transition_system', mod.state_transition_system, jnp.array(x)), obs.call('state_transition_input', mod.state_transition_input, jnp.array(x))
            obs.n('field')
            obs.expect(close(fx, s.f(x), 1e-12), f'{name}({sp.get("over")}): f({x}) = {np.asarray(fx)}, expected {s.f(x)}', spec=sp)
            obs.expect(close(gx, s.g(x), 1e-12), f'{name}({sp.get("over")}): g = {np.asarray(gx)}, expected {s.g(x)}', spec=sp)
        if sp['fam'] == 'insp1' and s.kind == 'easif':
            u = rng.uniform(-1, 1, 3)
            d = s.f(x) + s.g(x) @ u
            d[7] = np.sum(np.abs(u)) / sp.get('over', {}).get('m', R.M_CWH)
            got = obs.call('compute_state_dot', mod.compute_state_dot, jnp.array(x), 0.7, jnp.array(u))
            obs.n('state_dot')
            obs.expect(close(got, d, 1e-12), f'{name}({sp.get("over")}): state derivative {np.asarray(got)}, expected {d}', spec=sp)
            if i % 8 == 0:
                T = float(rng.choice([0.5, 1.0, 10.0]))
                for nm, z in (('_pred_state', x[:8]), ('_pred_state_cwh', x[:6])):
                    if hasattr(mod, nm) and len(x) >= 8:
                        y = np.asarray(obs.call(nm, getattr(mod, nm), jnp.array(z), T, jnp.array(u)), float)
                        A, B = R.cwh(sp.get('over', {}).get('m', R.M_CWH), sp.get('over', {}).get('n', R.N_CWH), 3)
                        Ad, Bd = R.zoh(A, B, T)
                        want = Ad @ x[:6] + Bd @ u
                        if nm == '_pred_state':
                            want = np.r_[want, x[6] + T * d[6], x[7] + T * d[7]]
                        obs.n('pred_state')
                        obs.expect(close(y, want, 3e-6), f'{name}({sp.get("over")}): {nm} gives {y} after {T}s, exact solution {want}', spec=sp, state=x, control=u)
            got = obs.call('compute_state_dot_cwh', mod.compute_state_dot_cwh, jnp.array(x[:6]), 0.7, jnp.array(u))
            obs.expect(close(got, d[:6], 1e-12), f'{name}({sp.get("over")}): CWH derivative {np.asarray(got)}, expected {d[:6]}', spec=sp)
        if s.kind == 'dasif':
            u, dt = rng.uniform(-1, 1, 3), float(10.**rng.uniform(-0.5, 2.5))
            y = obs.call('next_state_differentiable', mod.next_state_differentiable, jnp.array(x), dt, jnp.array(u))
            want = s.pred(x, dt, u)
            obs.n('discrete_next')
            obs.judged((name, 'next', tuple(np.round(x, 5)), round(dt, 5)))
            obs.expect(close(y, want, 2e-7), f'{name}({sp.get("over")}): next state {np.asarray(y)} after {dt}s, expected {want}', spec=sp, state=x, dt=dt, control=u)
    # decisions, with the same monitors as P03, P04, P06, P07, P08 but for the configured parameters
    if case.get('cbk'):
        n0 = obs.counts['calls']
        for i in range(case['n']):
            x, ud, dt = s.draw(rng), s.draw_u(rng), float(s.dts[0])
            if s.kind == 'iasif':
                lib.check_qp(obs, s, mod, x, dt, ud, rel=1e-8, rng=rng)
            else:
                base = {k: dict(c.params) for k, c in s.cons.items()}
                if rng.random() < 0.5:
                    lib.tune_simplex(s, mod, rng, x, dt, ud)
                lib.check_simplex(obs, s, mod, x, dt, ud, lib.relerr(True, lib.method_of(sp)), 1e-6, rng)
                obs.call('reset', mod.reset)
                for k_, p in base.items():
                    s.cons[k_].params.update(p)
                    mod.constraints[k_].params.update(p)
        obs.n('custom_backup', obs.counts['calls'] - n0)
        return
    sub = dict(case, n=case['n'] * 2, x64=True)
    n0 = obs.counts['calls']
    if s.kind in ('esimplex', 'isimplex'):
        p03.run_case(sub, obs, s.kind)
        obs.n('default_backup_in_filter', obs.counts['calls'] - n0)
    elif s.kind == 'easif':
        p06.run_case(sub, obs)
    elif s.kind == 'iasif':
        p07.run_case(sub, obs)
    else:
        p08.run_case(sub, obs)

"""P07 implicit ASIF: barrier along the backup trajectory, with documented sub-sampling"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R
from vp.checks.p06 import make_direct
from vp.sut import user_scn, SYS

RULE = 'distinct (module, state, desired control, active set) judged feasible and closest against the reference rows along the reference backup trajectory; unchanged controls are not counted'
ASSUMPTIONS = ['the sensitivity D_j is the one obtained by integrating the variational equation with the module step size (first order); the trajectory uses the configured integration method',
               'ties in the N-least selection are ambiguous and not judged']
REQUIRE = {'modified': 150, 'unchanged': 80, 'decisive_first_point': 5, 'decisive_last_point': 5, 'decisive_inner_point': 10, 'subsampling_matters': 30, 'decisive_at_num_check_all': 2, 'check_all_beyond_trajectory': 10, 'modified_short_trajectory': 40, 'decisive_after_40_steps': 6}


def sub_of(rng):
    t = int(rng.integers(0, 10))
    if t == 9:     # more points to check than the trajectory may have
        return {'num_check_all': int(rng.integers(4, 25)), 'skip_length': int(rng.integers(1, 3)), 'subsample_constraints_num_least': int(rng.integers(1, 4)), 'keep_first': bool(rng.integers(2))}
    if t == 0:
        return {}
    if t == 1:
        return {'subsample_constraints_num_least': int(rng.integers(1, 4))}
    if t == 2:
        return {'num_check_all': int(rng.integers(1, 4)), 'skip_length': int(rng.integers(2, 5))}
    if t == 3:
        return {'skip_length': int(rng.integers(2, 6)), 'keep_last': True}
    if t == 4:
        return {'subsample_constraints_num_least': int(rng.integers(1, 3)), 'keep_first': True}
    if t == 5:
        return {'subsample_constraints_num_least': 1, 'keep_first': True, 'keep_last': True}
    if t == 6:
        return {'num_check_all': int(rng.integers(1, 5)), 'skip_length': int(rng.integers(2, 4)), 'subsample_constraints_num_least': int(rng.integers(1, 4)), 'keep_last': True}
    if t == 7:
        return {'num_check_all': 0, 'skip_length': 3}
    return {'num_check_all': int(rng.integers(1, 6)), 'skip_length': 1}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    for i, sp in enumerate(lib.zoo_specs('iasif')):
        for j in range(2 * k):
            d = dict(sp, over={})
            if j:
                d.update(bounds='var', bseed=case_seed(seed, 'b', i, j), window=[1.0, 2.0, 3.0, 6][j % 4])
                d['over']['integration_method'] = ['Euler', 'RK45'][(i + j) % 2]
            out.append(dict(spec=d, seed=case_seed(seed, 'p07', i, j), n=45 if tier == 'quick' else 120, w=3, jit=True))
        out.append(dict(spec=dict(sp, window=1.0), seed=case_seed(seed, 'p07nj', i), n=10, w=2, jit=False))
    for i, sysn in enumerate(lib.USYS):
        for j in range(6 * k):
            d = dict(fam='user', kind='iasif', sys=sysn, cseed=case_seed(seed, 'c', sysn, j), bounds=['var', None][j % 2], bmag=3.0, bseed=j, window=[0.5, 0.9, 1.3, 0.3][j % 4], umag=[1., 2.][j % 2],
                     method=['Euler', 'RK45'][j % 2])
            out.append(dict(spec=d, seed=case_seed(seed, 'p07u', i, j), n=40 if tier == 'quick' else 90, w=3, jit=(j % 6 != 4), direct=(j % 3 == 2), sub=True))
            if not out[-1]['jit']:
                out[-1]['n'] = 12
        for j in range(k):      # windows of one to three steps
            d = dict(fam='user', kind='iasif', sys=sysn, cseed=case_seed(seed, 'cs', sysn, j), bounds=[-3., 3.], window=[0.1, 0.25, 0.2][(i + j) % 3], umag=2., method='Euler')
            out.append(dict(spec=d, seed=case_seed(seed, 'p07s', i, j), n=60, w=2, jit=True, sub=True, short=True))
    for j in range(3 * k):      # long windows with slow braking: the last points are the ones that count
        d = dict(fam='user', kind='iasif', sys=['di1', 'di2'][j % 2], cseed=case_seed(seed, 'cl', j), bounds=[-3., 3.], window=[4.5, 6.3, 5.2][j % 3], umag=2., method='Euler', late=True)
        out.append(dict(spec=d, seed=case_seed(seed, 'p07l', j), n=16, w=4, jit=True, late=True))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = dict(case['spec'])
    kw, rf = {}, None
    if case.get('sub'):
        subs = [sub_of(rng) for _ in range(6)]
        if case.get('short'):
            subs = [{'num_check_all': int(rng.integers(-1, 2)), 'skip_length': int(rng.integers(1, 4)), 'keep_first': bool(rng.integers(2)), 'keep_last': bool(rng.integers(4)),
                     'subsample_constraints_num_least': [None, 1][int(rng.integers(2))]} for _ in range(6)]
        sp['over'] = dict(subf=lambda i: subs[i % 6])
    s = lib.mk(sp)
    if case.get('direct'):
        mk, rf = make_direct(rng, s.nu, 1)
        kw['direct'] = mk
    mod = obs.call('constructor', s.build, jit_enable=case['jit'], **kw)
    if case.get('short'):
        s.dts = [sp['window'], sp['window'] / 2]
    if case.get('late'):
        s.dts = [0.1, 0.05]
        d0 = s.draw

        def fwd(rng):
            x = d0(rng)
            x[len(x) // 2:] = abs(x[len(x) // 2:])
            return x
        s.draw = fwd
    dts = [s.dts[0], s.dts[int(rng.integers(len(s.dts)))]] if case['jit'] else [s.dts[0]] * 2
    base = {k: dict(c.params) for k, c in s.cons.items()}
    for i in range(case['n']):
        x, dt = s.draw(rng), float(dts[int(i > case['n'] * 0.6 or rng.random() < 0.15)])
        ud = s.draw_u(rng)
        # aim for states from which the backup trajectory is (nearly) safe: shift a parameter at run time
        ks = [k for k in s.cons if k in lib.TUNE and lib.TUNE[k][0] in s.cons[k].params]
        if ks and rng.random() < 0.6:
            k = ks[int(rng.integers(len(ks)))]
            traj, _ = lib.backup_traj(s, x, dt)
            hm = min(s.cons[k].h(y) for y in traj)
            name, sg = lib.TUNE[k]
            val = float(s.cons[k].params[name] + sg * (10.**rng.uniform(-3, -0.3) - hm))
            s.cons[k].params[name] = val
            mod.constraints[k].params[name] = val
        near = lib.near_u(s, x, dt, ud, rng, rf, 1e-8) if rng.random() < 0.12 else None
        if near is not None:
            ud = near
            obs.n('desired_near_the_boundary')
        u, v, q = lib.check_qp(obs, s, mod, x, dt, ud, direct=rf, rel=1e-8, rng=rng)
        if q is not None and any(c.sub.get('num_check_all', -1) > q.N for c in s.cons.values()):
            obs.n('check_all_beyond_trajectory')
        if v == 'ok' and np.linalg.norm(np.asarray(u) - ud) > 1e-6:
            coverage(obs, s, x, dt, ud, q)
            if q.N <= 3:
                obs.n('modified_short_trajectory')
        for k_, p in base.items():
            s.cons[k_].params.update(p)
            mod.constraints[k_].params.update(p)


def coverage(obs, s, x, dt, ud, q):
    """which points of the trajectory decided the answer"""
    u0 = R.proj(np.asarray(ud, float), q.A, q.b)
    nb = len(q.names) - sum(n.startswith('direct') for n in q.names) - q.barrier
    pos = nb
    for k, idx in q.picked.items():
        for j in idx:
            keep = np.ones(len(q.b), bool)
            keep[pos] = False
            u1 = R.proj(np.asarray(ud, float), q.A[keep], q.b[keep])
            pos += 1
            if u0 is not None and (u1 is None or np.linalg.norm(u1 - u0) > 1e-4):
                obs.n('decisive_first_point' if j == 0 else 'decisive_last_point' if j == q.N - 1 else 'decisive_inner_point')
                if j > 40:
                    obs.n('decisive_after_40_steps')
                if j == s.cons[k].sub.get('num_check_all', -1) and j > 0:
                    obs.n('decisive_at_num_check_all')
    full = {k: c.sub for k, c in s.cons.items()}
    if any(full.values()):
        for c in s.cons.values():
            c.sub = {}
        r = lib.qp_rows(s, x, dt, None, 1e-8)
        for k, c in s.cons.items():
            c.sub = full[k]
        if r is not None:
            u2 = R.proj(np.asarray(ud, float), r.A, r.b)
            if u2 is None or np.linalg.norm(u2 - u0) > 1e-4:
                obs.n('subsampling_matters')

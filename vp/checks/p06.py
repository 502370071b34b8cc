"""P06 explicit ASIF optimality"""
import numpy as np
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import C, jnp, user_module, SYS, user_cons

RULE = 'distinct (module, state, desired control, active set) whose returned control was judged feasible and closest by the bracketing reference QP; calls that returned the desired control unchanged are not counted'
ASSUMPTIONS = ['judged with float64 arithmetic enabled in jax (plus a single-precision lane with wider tolerance); barrier values within rounding of zero are ambiguous','constraints expressed in units that make their rows smaller than 1e-4 may hit the absolute tolerance of the quadratic-program solver; a failure reported then is not judged, a returned control is']
REQUIRE = {'modified': 400, 'unchanged': 200, 'negative_branch': 100, 'direct_active': 20, 'other_units': 100, 'desired_near_the_boundary': 150}
UNITS = [[1e-5, 1e4], [1e6, 1e-6, 1.], [3e-6], [1e5, 1e-4]]


class DIC(C.DirectInequalityConstraint):
    def __init__(self, w, c, **kw):
        super().__init__(**kw)
        self._w, self._c = w, c

    def ineq_weight(self, state, params):
        return self._w(jnp, state, params)

    def ineq_constant(self, state, params):
        return self._c(jnp, state, params)


def make_direct(rng, nu, n=2):
    """(factories, reference)"""
    mk, rf = OrderedDict(), OrderedDict()
    for i in range(n):
        q = rng.normal(size=nu)
        p = {'k': float(rng.uniform(-0.4, 0.1)), 's': float(rng.uniform(-0.3, 0.3))}
        w = lambda xp, x, p, q=q: xp.array(q) * (1 + 0.1 * xp.tanh(x[0]))  # noqa
        c = lambda xp, x, p: p['k'] + p['s'] * xp.tanh(x[0])  # noqa
        mk[f'direct{i}'] = (lambda w=w, c=c, p=p: DIC(w, c, params=dict(p)))
        rf[f'direct{i}'] = dict(w=lambda x, p, w=w: np.asarray(w(np, x, p)), c=lambda x, p, c=c: float(c(np, x, p)), params=dict(p), enabled=True)
    return mk, rf


def cases(tier, seed):
    out = []
    k = 2 if tier == 'quick' else 8
    for i, sp in enumerate(lib.zoo_specs('easif')):
        heavy = sp['fam'].startswith('insp')
        for j in range(k if not heavy else max(1, k // 2)):
            d = dict(sp)
            if j:
                d.update(bounds='var', bseed=case_seed(seed, 'b', i, j))
            out.append(dict(spec=d, seed=case_seed(seed, 'p06', i, j), n=(220 if heavy else 90) * (1 if tier == 'quick' else 5), w={'inspn3': 12, 'inspn2': 8}.get(sp['fam'], 3), jit=True))
        if not heavy:
            out.append(dict(spec=sp, seed=case_seed(seed, 'p06nj', i), n=12, w=2, jit=False))
            out.append(dict(spec=sp, seed=case_seed(seed, 'p06f', i), n=60, w=2, jit=True, x64=False))
    for i, sysn in enumerate(lib.USYS):
        for j in range(k * 2):
            d = dict(fam='user', kind='easif', sys=sysn, cseed=case_seed(seed, 'c', sysn, j), bounds=['var', None, 'var', [-3, 3]][j % 4], bseed=j, umag=[1., 1., 2., .5][j % 4])
            out.append(dict(spec=d, seed=case_seed(seed, 'p06u', i, j), n=90 * (1 if tier == 'quick' else 5), w=2, jit=(j % 4 != 3), direct=bool(j % 2)))
            if not out[-1]['jit']:
                out[-1]['n'] = 20
        # the same constraints in other units: the admissible controls are the same
        for j in range(k // 2):
            un = UNITS[(i + j + seed) % len(UNITS)]
            d = dict(fam='user', kind='easif', sys=sysn, cseed=case_seed(seed, 'cu', sysn, j), bounds=[-3, 3], bseed=j, units=un)
            out.append(dict(spec=d, seed=case_seed(seed, 'p06un', i, j), n=70 * (1 if tier == 'quick' else 5), w=2, jit=True))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    kw, rf = {}, None
    if case.get('direct'):
        mk, rf = make_direct(rng, s.nu)
        kw['direct'] = mk
    mod = obs.call('constructor', s.build, jit_enable=case['jit'], **kw)
    x64 = case.get('x64', True)
    rel = 1e-9 if x64 else 3e-5
    base = {k: dict(c.params) for k, c in s.cons.items()}
    for i in range(case['n']):
        x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts))
        if x64 and rng.random() < 0.35:
            lib.tune_qp(s, mod, rng, x)
        near = lib.near_u(s, x, dt, ud, rng, rf, rel) if x64 and 'units' not in sp and rng.random() < 0.2 else None
        if near is not None:
            ud = near
        neg = any(c.h(x) < -1e-6 for c in s.cons.values())
        u, v, q = lib.check_qp(obs, s, mod, x, dt, ud, direct=rf, rel=rel, rng=rng, lenient='units' in sp)
        if v == 'ok':
            if near is not None:
                obs.n('desired_near_the_boundary')
            if sp.get('units'):
                obs.n('other_units')
            if neg:
                obs.n('negative_branch')
            if rf:
                un = np.asarray(u, float)
                for k_, d in rf.items():
                    if abs(d['w'](x, d['params']) @ un - d['c'](x, d['params'])) < 1e-7 and np.linalg.norm(un - ud) > 1e-6:
                        obs.n('direct_active')
        for k_, p in base.items():
            s.cons[k_].params.update(p)
            mod.constraints[k_].params.update(p)

"""P21 higher-order barrier constraints: recursion evaluated independently (nested derivatives in the harness) and enforced by filters"""
import numpy as np
import jax
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, ref as R
from vp.ref import RC
from vp.sut import C, UC, USys, Scn, SYS, PCS, jnp, user_module, npf, z1, insp1v1_scn

RULE = 'distinct (system, constraint, relative degree, parameters, state) at which value, phi or gradient of a higher-order constraint, or a filter built on it, was compared with the recursion'
ASSUMPTIONS = ['the reference recursion is evaluated by nested jax derivatives of the formula in the harness, in float64']
REQUIRE = {'value': 250, 'gradient': 250, 'phi': 250, 'filter_judged': 100, 'filter_modified_by_hocbf': 25, 'degree_1': 60, 'degree_2': 60, 'degree_3': 60, 'degree_4': 60, 'degree_5': 20, 'biased': 200, 'param_changed': 200, 'original_params_changed': 40, 'zoo_value': 30}


def chain(n):
    return USys(f'chain{n}', n, 1, lambda xp, x: xp.array([x[i + 1] for i in range(n - 1)] + [0 * x[0]]), lambda xp, x: xp.array([[0.]] * (n - 1) + [[1.]]), lambda xp, x: xp.array([-x[n - 1]]))


def nl3():
    return USys('nl3', 3, 1, lambda xp, x: xp.array([x[1] + 0.1 * x[0]**2, x[2] - 0.2 * xp.sin(x[0]), -0.3 * x[2] + 0.1 * x[0] * x[1]]), lambda xp, x: xp.array([[0.], [0.], [1.2]]), lambda xp, x: xp.array([-x[2]]))


SY = {'di1': SYS['di1'], 'pend': SYS['pend'], 'di2': SYS['di2'], 'full2': SYS['full2'], 'chain3': chain(3), 'chain4': chain(4), 'nl3': nl3()}
DEG = {'di1': 2, 'pend': 2, 'di2': 2, 'full2': 1, 'chain3': 3, 'chain4': 4, 'nl3': 3}


def formulas(sysn):
    out = {'wall': (lambda xp, x, p: p['c'] - x[0], {'c': 1.}), 'floor': (lambda xp, x, p: x[0] + p['c'] + 0.1 * x[0]**3, {'c': 1.}),
           'ball': (lambda xp, x, p: p['r']**2 - p['k'] * x[0]**2, {'r': 1.5, 'k': 0.8})}
    if sysn in ('di2', 'full2'):
        out['disc'] = (lambda xp, x, p: (x[0] - p['cx'])**2 + (x[1] - 0.1)**2 - p['r']**2, {'cx': 0.2, 'r': 0.5})
    return out


def cases(tier, seed):
    out = []
    K = 1 if tier == 'quick' else 6
    for i, s in enumerate(SY):
        for r in range(K):
            out.append(dict(part='value', sys=s, seed=case_seed(seed, 'p21v', i, r), n=12, w=4))
            for jit in ([True, True, False] if r == 0 else [True, True]):
                out.append(dict(part='filter', sys=s, seed=case_seed(seed, 'p21f', i, r, jit, len(out)), n=30 if jit else 8, jit=jit, w=4))
    for r in range(K):
        out.append(dict(part='zoo', seed=case_seed(seed, 'p21z', r), n=60, w=5))
    return out


def psi_ref(fn, f, deg, al, bias):
    """value and gradient functions of psi_(deg-1)"""
    def psi(k):
        if k == 0:
            return lambda x, p: fn(jnp, x, p) + bias
        prev = psi(k - 1)
        return lambda x, p: jax.grad(prev)(x, p) @ f(x) + R.poly(al, prev(x, p))
    last = psi(deg - 1)
    return jax.jit(last), jax.jit(jax.grad(last))


def draw_case(rng, sysn):
    S = SY[sysn]
    fs = formulas(sysn)
    name = list(fs)[int(rng.integers(len(fs)))]
    fn, p0 = fs[name]
    p = {k: float(v * rng.uniform(0.6, 1.5)) for k, v in p0.items()}
    al = (0, float(rng.uniform(0.3, 1.5)), 0, float(rng.uniform(0, 0.4)))
    bias = float(rng.choice([0., -0.05, 0.1]))
    hb = float(rng.choice([0., 0., -0.03]))
    phi = None
    if rng.random() < 0.5:
        phi = lambda xp, x, p: 3. * x[0] + sum(p.values())  # noqa
    return S, name, fn, p, al, bias, hb, phi


def close(a, b, tol=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= tol * (1 + np.max(np.abs(b)))))


def run_case(case, obs):
    {'value': value, 'filter': filt, 'zoo': zoo}[case['part']](case, obs)


def value(case, obs):
    rng = np.random.default_rng(case['seed'])
    for deg in (1, 2, 3, 4, 5):
        for r in range(2):
            S, name, fn, p, al, bias, hb, phi = draw_case(rng, case['sys'])
            f = lambda x: S.f(jnp, x)  # noqa
            jit = bool(rng.random() < 0.7) or deg > 4
            orig = UC(fn, phi=phi, params=dict(p), bias=bias, alpha=PCS([0, 7.]))
            kw = dict(jit_enable=jit)
            if hb:
                kw['bias'] = hb
            sl = None
            if rng.random() < 0.3:
                sl = kw['slack_priority_scale'] = 1e6
            h = obs.call('HOCBFConstraint', C.HOCBFConstraint, orig, relative_degree=deg, state_transition_system=f, alpha=PCS(list(al)), **kw)
            obs.expect(dict(h.params) == p, f'parameters {h.params} instead of those of the original constraint {p}')
            obs.expect(h.slack_priority_scale == sl, f'slack priority {h.slack_priority_scale} instead of {sl}')
            k0 = next(iter(p))
            orig.params[k0] = p[k0] + 0.25
            obs.n('original_params_changed')
            obs.expect(dict(h.params) == dict(orig.params), f'after changing the original constraint\'s parameters to {dict(orig.params)} the higher-order constraint uses {dict(h.params)}')
            orig.params[k0] = p[k0]
            V, G = psi_ref(fn, f, deg, al, bias)
            for i in range(case['n'] if deg < 5 else 4):
                x = rng.normal(size=S.nx) * rng.uniform(0.2, 1.5)
                q = dict(p)
                if rng.random() < 0.5:
                    q = {k: float(v * rng.uniform(0.7, 1.4)) for k, v in p.items()}
                    obs.n('param_changed')
                v = obs.call('value', h, jnp.array(x), q)
                g = obs.call('grad', h.grad, jnp.array(x), q)
                ph = obs.call('phi', h.phi, jnp.array(x), q)
                want, gw = float(V(jnp.array(x), q)) + hb, np.asarray(G(jnp.array(x), q))
                pw = float((phi or fn)(np, x, q))
                obs.n('value'), obs.n('gradient'), obs.n('phi'), obs.n(f'degree_{deg}')
                if bias or hb:
                    obs.n('biased')
                obs.judged((S.name, name, deg, tuple(np.round(x, 6)), tuple(q.values())))
                det = dict(system=S.name, constraint=name, degree=deg, state=x, params=q, alpha=al, bias=bias, own_bias=hb)
                obs.sample(value=v, reference=want, **det)
                obs.expect(close(v, want), f'{S.name}/{name}: degree {deg} value {float(v)}, recursion gives {want}', **det)
                obs.expect(close(g, gw), f'{S.name}/{name}: degree {deg} gradient {np.asarray(g)}, recursion gives {gw}', **det)
                obs.expect(close(ph, pw), f'{S.name}/{name}: phi {float(ph)}, original constraint gives {pw}', **det)
                obs.expect(close(h.alpha(float(v)), R.poly(al, float(v))), 'strengthening function differs from the given one', **det)


def filt(case, obs):
    rng = np.random.default_rng(case['seed'])
    S, name, fn, p, al, bias, hb, phi = draw_case(rng, case['sys'])
    deg = DEG[case['sys']]
    f, g = npf(S)
    jf = lambda x: S.f(jnp, x)  # noqa
    neg = (0, float(rng.uniform(1, 4))) if rng.random() < 0.5 else None
    bn = float(-rng.uniform(0, 0.05)) if rng.random() < 0.5 else None
    kw = dict(bias=hb)
    if neg:
        kw['alpha_negative'] = PCS(list(neg))
    if bn is not None:
        kw['bias_negative'] = bn
    V, G = psi_ref(fn, jf, deg, al, bias)
    rc = RC(lambda x, p: float(V(jnp.array(x), p)), p, hb, al, neg, -0.01 if bn is None else bn)
    rc.grad_fn = lambda x, p: np.asarray(G(jnp.array(x), p))
    lim = float(rng.uniform(1.5, 3))
    mk = OrderedDict(ho=lambda: C.HOCBFConstraint(UC(fn, phi=phi, params=dict(p), bias=bias, alpha=PCS([0, 3.])), relative_degree=deg, state_transition_system=jf, alpha=PCS(list(al)), **kw),
                     last=lambda: C.ConstraintMagnitudeStateLimit(limit_val=lim, state_index=S.nx - 1, alpha=PCS([0, 1.])))
    cons = OrderedDict(ho=rc, last=RC(R.lim_mag(S.nx - 1), {'limit_val': lim}, 0., (0, 1.)))
    lo, hi = (None, None) if rng.random() < 0.3 else (-6., 8.)
    s = Scn(f'user.{S.name}.hocbf', 'easif', lambda **k: user_module('easif', S, mk, lo, hi, **k), S.nx, S.nu, lo, hi, cons, f, g, None, None, lambda r: r.normal(size=S.nx) * r.uniform(0.1, 1.2), [0.1])
    mod = obs.call('constructor', s.build, jit_enable=case['jit'])
    for i in range(case['n']):
        x, ud = s.draw(rng), rng.normal(size=S.nu) * rng.uniform(0.1, 3)
        q = dict(p)
        if rng.random() < 0.4:
            q = {k: float(v * rng.uniform(0.7, 1.4)) for k, v in p.items()}
            obs.n('param_changed')
        mod.constraints['ho'].params.update(q)
        rc.params.update(q)
        u, v, qq = lib.check_qp(obs, s, mod, x, 0.1, ud, rel=1e-9, rng=rng)
        if v == 'ok':
            obs.n('filter_judged')
            un = np.asarray(u, float)
            r = qq.names.index('ho')
            if np.linalg.norm(un - ud) > 1e-6 and abs(qq.A[r] @ un - qq.b[r]) < 1e-6 * (1 + abs(qq.b[r])):
                obs.n('filter_modified_by_hocbf')


def zoo(case, obs):
    rng = np.random.default_rng(case['seed'])
    over = {'use_hocbf': True}
    if rng.random() < 0.7:
        over.update(chief_radius=float(rng.uniform(3, 8)), deputy_radius=float(rng.uniform(3, 8)), n=float(rng.uniform(0.0008, 0.0013)))
    s = insp1v1_scn('easif', **over)
    mod = obs.call('constructor', s.build)
    h, c = mod.constraints['chief_collision_hocbf'], s.cons['chief_collision_hocbf']
    for i in range(case['n']):
        x = s.draw(rng)
        v = obs.call('value', h, jnp.array(x), dict(h.params))
        ph = obs.call('phi', h.phi, jnp.array(x), dict(h.params))
        obs.n('zoo_value')
        obs.judged(('zoo', tuple(np.round(x, 5))))
        obs.expect(close(v, c.h(x)), f'{s.name}: hocbf value {float(v)} at {x}, recursion gives {c.h(x)}', state=x)
        obs.expect(close(ph, c.phi(x)), f'{s.name}: hocbf phi {float(ph)} at {x}, distance margin is {c.phi(x)}', state=x)
        lib.check_qp(obs, s, mod, x, 1.0, s.draw_u(rng), rng=rng)

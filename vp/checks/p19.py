"""P19 constraints mean what they document"""
import numpy as np
import scipy.linalg
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import C, PCS, z1, z2, z3, zn, zi, jnp

RULE = 'distinct (constraint class, branch, state, parameters) whose value, margin phi and gradient were compared with the documented formula (gradient by complex step, passive safety by matrix exponential)'
ASSUMPTIONS = ['points at which a documented formula is not differentiable (branch boundary, tie of the minimum, cone axis, zero vectors) are not drawn']
KINDS = ['mag', 'max', 'min', 'rv2', 'rv3', 'chief', 'deputy', 'cone', 'rmax', 'psm', 'psmdep', 'hoex', 'iexp', 'iimp']
REQUIRE = {**{f'value:{k}': 25 for k in KINDS}, **{f'negative:{k}': 3 for k in KINDS}, 'explicit_params': 300, 'alpha_default': 14, 'alpha_negative_default': 300, 'alpha_negative_given': 100, 'poly': 500, 'get_array': 40, 'jit_off': 100, 'own_params': 10}


def gcone(getp, getv, getc, w):
    """keep-out cone about an arbitrary axis vector, surface rotating with angular velocity w"""
    def fn(x, p):
        r, v, c = getp(x), getv(x), getc(x)
        c = c / R.rnorm(c)
        th = p['fov'] / 2
        ax = np.sum(r * c)
        perp = r - ax * c
        rho = R.rnorm(perp)
        s = rho * np.cos(th) - ax * np.sin(th)
        nrm = perp / rho * np.cos(th) - c * np.sin(th)
        q = r - s * nrm
        vs = np.array([w[1] * q[2] - w[2] * q[1], w[2] * q[0] - w[0] * q[2], w[0] * q[1] - w[1] * q[0]])
        return R.sdist(s, p['a_max'], 2) + np.sum(nrm * (v - vs))
    return fn


def psm_ref(n, steps, dep):
    A = R.cwh(1., n, 3)[0]
    cache = {}

    def prop(p):
        k = float(p['dt'])
        if k not in cache:
            cache[k] = [scipy.linalg.expm(A * k * j)[:3] for j in range(steps + 1)]
        return cache[k]

    def arr(x, p):
        z = x[:6] if dep is None else x[:6] - x[6 * dep:6 * dep + 6]
        return np.array([R.rnorm(M @ z) - p['collision_radius'] for M in prop(p)])

    def fn(x, p):
        d = arr(x, p)[1:]
        return d[np.argmin(R.re(d))]
    return fn, arr


def unit(rng, n=3):
    v = rng.normal(size=n)
    return v / np.linalg.norm(v)


def make(kind, rng, r=0):
    """(factory(**kw), RC-like fn, phi fn or None, params, draw(rng, params), default alpha or None, extra)"""
    U = rng.uniform
    if kind in ('mag', 'max', 'min'):
        nx = int(rng.integers(1, 7))
        i = int(rng.integers(nx))
        lim = float(U(0.2, 5)) * (1 if kind == 'mag' else float(rng.choice([-1, 1])))
        cls, rf = {'mag': (C.ConstraintMagnitudeStateLimit, R.lim_mag), 'max': (C.ConstraintMaxStateLimit, R.lim_max), 'min': (C.ConstraintMinStateLimit, R.lim_min)}[kind]
        if rng.random() < 0.2:
            i_arg, i = i - nx, i  # negative index counts from the end
        else:
            i_arg = i
        def draw(rng, p):
            x = rng.normal(size=nx) * 3
            if rng.random() < 0.6:
                x[i] = float(p['limit_val']) * rng.choice([-1, 1, 1]) + rng.choice([-1, 1]) * 10.**rng.uniform(-4, 0)
            return x
        return (lambda **kw: cls(limit_val=lim, state_index=i_arg, **kw)), rf(i), None, {'limit_val': lim}, draw, (0, 0.0005, 0, 0.001), None
    if kind in ('rv2', 'rv3'):
        d = int(kind[-1])
        p = {'v0': float(U(0.05, 1)), 'v1': float(U(0.001, 0.1)), 'v0_distance': float(rng.choice([0, U(0, 20)]))}
        delta = float(rng.choice([1e-5, 1e-3, 0.1]))
        cls = z2.ConstraintDocking2dRelativeVelocity if d == 2 else z3.ConstraintCWH3dRelativeVelocity
        kw0 = dict(p) if delta == 1e-5 else dict(p, delta=delta)
        if p['v0_distance'] == 0:
            kw0.pop('v0_distance')

        def draw(rng, p):
            r = unit(rng, d) * 10.**rng.uniform(-2, 3.5)
            vm = p['v0'] + p['v1'] * (np.linalg.norm(r) - p['v0_distance'])
            return np.r_[r, unit(rng, d) * abs(vm) * rng.choice([U(0, 2), 1 + rng.choice([-1, 1]) * 10.**rng.uniform(-4, -1)])]
        return (lambda **kw: cls(**kw0, **kw)), R.rel_vel(d, delta), None, p, draw, None, None
    if kind in ('chief', 'hoex'):
        rad, am = float(U(1, 20)), float(U(0.005, 0.2))

        def draw(rng, p):
            n_ = unit(rng)
            s = rng.choice([-1, 1, 1]) * 10.**rng.uniform(-2, 2)
            r = max(p['collision_radius'] + s, 0.2)
            return np.r_[n_ * r, unit(rng) * 10.**rng.uniform(-2, 1)]
        if kind == 'hoex':
            return (lambda **kw: z1.HOCBFExampleChiefCollision(collision_radius=rad, **kw)), (lambda x, p: R.rnorm(x[:3]) - p['collision_radius']), None, {'collision_radius': rad}, draw, None, None
        return (lambda **kw: z1.ConstraintCWHChiefCollision(collision_radius=rad, a_max=am, **kw)), R.chief_collision, R.chief_dist, {'collision_radius': rad, 'a_max': am}, draw, None, None
    if kind == 'deputy':
        nd = int(rng.integers(6, 11) if r % 2 == 0 else rng.integers(2, 6))
        i = int(rng.integers(max(1, nd - 3), nd) if r % 4 == 0 else rng.integers(1, nd))
        rad, am = float(U(1, 20)), float(U(0.005, 0.2))

        def draw(rng, p):
            x = rng.normal(size=6 * nd + 1) * 50
            s = rng.choice([-1, 1, 1]) * 10.**rng.uniform(-2, 2)
            x[6 * i:6 * i + 3] = x[:3] - unit(rng) * max(p['collision_radius'] + s, 0.2)
            return x
        return (lambda **kw: zn.ConstraintCWHDeputyCollision(collision_radius=rad, a_max=am, deputy=i, **kw)), R.deputy_collision(i), R.deputy_dist(i), {'collision_radius': rad, 'a_max': am}, draw, None, None
    if kind == 'rmax':
        rm, am = float(U(50, 1500)), float(U(0.005, 0.2))

        def draw(rng, p):
            s = rng.choice([-1, 1, 1]) * 10.**rng.uniform(-2, 2.5)
            return np.r_[unit(rng) * max(p['r_max'] - s, 1.), unit(rng) * 10.**rng.uniform(-2, 1)]
        return (lambda **kw: z1.ConstraintCWHMaxDistance(r_max=rm, a_max=am, **kw)), R.max_dist, R.max_dist_phi, {'r_max': rm, 'a_max': am}, draw, None, None
    if kind == 'cone':
        fov, am = float(U(0.2, 2.6)), float(U(0.005, 0.2))
        w = np.array([0, 0, float(rng.normal() * 0.002)]) if rng.random() < 0.5 else rng.normal(size=3) * 0.01
        tilt = float(U(0, 1))
        size = float(rng.choice([1., 10.**U(-1.5, 1.5)]))   # the documented axis is a vector, not a unit vector

        def axis(xp):
            return lambda x: size * xp.array([-xp.cos(x[6]) * (1 + tilt), -xp.sin(x[6]), tilt + 0 * x[6]])

        def draw(rng, p):
            a = rng.uniform(-np.pi, np.pi)
            x = np.zeros(8)
            x[6] = a
            c = axis(np)(x)
            c = c / np.linalg.norm(c)
            o = np.cross(c, unit(rng))
            o /= np.linalg.norm(o)
            dist = 10.**rng.uniform(0.5, 3)
            th = p['fov'] / 2 + (rng.uniform(-1, 1) if rng.random() < 0.5 else rng.choice([-1, 1]) * 10.**rng.uniform(-3, -1))
            th = np.clip(th, 0.05, np.pi - 0.05)
            x[:3] = dist * (np.cos(th) * c + np.sin(th) * o)
            x[3:6] = unit(rng) * 10.**rng.uniform(-2, 0.5)
            x[7] = rng.uniform(0, 5)
            return x
        gp, gv = (lambda x: x[0:3]), (lambda x: x[3:6])

        def phi(x, p):
            c = axis(np)(x)
            return np.arccos(np.sum(x[:3] * c) / (R.rnorm(x[:3]) * R.rnorm(c))) - p['fov'] / 2
        return (lambda **kw: z1.ConstraintCWHConicKeepOutZone(a_max=am, fov=fov, get_pos=gp, get_vel=gv, get_cone_vec=axis(jnp), cone_ang_vel=jnp.array(w), **kw)), \
            gcone(gp, gv, axis(np), w), phi, {'fov': fov, 'a_max': am}, draw, None, None
    if kind in ('psm', 'psmdep'):
        n, steps, dt = float(rng.choice([0.001027, U(0.0005, 0.02)])), int(rng.integers(5, 120)), float(rng.choice([1, 0.5, 2.5, 10]))
        rad, m = float(U(1, 20)), float(U(1, 50))
        dep = None
        nd = 1
        if kind == 'psmdep':
            nd = int(rng.integers(6, 11) if r % 2 == 0 else rng.integers(2, 6))
            dep = int(rng.integers(max(1, nd - 3), nd) if r % 4 == 0 else rng.integers(1, nd))
        fn, arr = psm_ref(n, steps, dep)

        def draw(rng, p):
            x = rng.normal(size=6 * nd + 1) * 30
            T = steps * p['dt']
            # relative state that passes near the target somewhere in the horizon
            t = rng.uniform(-0.3, 1.3) * T
            tgt = unit(rng) * max(0.3, p['collision_radius'] + rng.choice([-1, 1]) * 10.**rng.uniform(-1, 1))
            rel = np.zeros(6)
            rel[3:] = unit(rng) * 10.**rng.uniform(-2, 0)
            rel[:3] = tgt - rel[3:] * t
            if dep is None:
                x[:6] = rel
            else:
                x[6 * dep:6 * dep + 6] = x[:6] - rel
            return x
        if dep is None:
            f = lambda **kw: z1.ConstraintPassivelySafeManeuver(collision_radius=rad, m=m, n=n, dt=dt, steps=steps, **kw)  # noqa
        else:
            f = lambda **kw: zn.ConstraintPSMDeputy(collision_radius=rad, m=m, n=n, dt=dt, steps=steps, deputy=dep, **kw)  # noqa
        return f, fn, None, {'collision_radius': rad, 'dt': dt}, draw, None, arr
    if kind == 'iexp':
        return (lambda **kw: zi.ConstraintIntegrator1dDockingCollisionExplicit(**kw)), (lambda x, p: -2 * x[0] - x[1]**2), None, {}, (lambda rng, p: rng.normal(size=2) * 2), (0, 1, 0, 30), None
    if kind == 'iimp':
        return (lambda **kw: zi.ConstraintIntegrator1dDockingCollisionImplicit(**kw)), (lambda x, p: -x[0] + 0 * x[1]), None, {}, (lambda rng, p: rng.normal(size=2) * 2), (0, 10, 0, 30), None
    raise KeyError(kind)


def cases(tier, seed):
    out = []
    for r in range(3 if tier == 'quick' else 12):
        for k in KINDS if r != 2 or tier != 'quick' else ('deputy', 'psmdep', 'psm', 'cone'):
            out.append(dict(kind=k, r=r, seed=case_seed(seed, 'p19', k, r), n=(60 if k not in ('psm', 'psmdep') else 45) * (1 if tier == 'quick' else 4), jit=r % 3 != 1, w=2))
            if not out[-1]['jit']:
                out[-1]['n'] = 30
    for r in range(3):
        out.append(dict(kind='poly', seed=case_seed(seed, 'p19p', r), n=400))
    return out


def close(a, b, rel, ab):
    return bool(np.all(np.isfinite(a))) and bool(np.all(np.abs(np.asarray(a, float) - b) <= rel * np.abs(b) + ab))


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    if case['kind'] == 'poly':
        return poly_case(case, obs, rng)
    kind = case['kind']
    fac, fn, phi, params, draw, dalpha, arr = make(kind, rng, case.get('r', 0))
    al = [0., float(rng.uniform(0.1, 2)), 0., float(rng.uniform(0, 1))]
    bias = float(rng.choice([0, -0.05, 0.3]))
    kw = dict(alpha=PCS(list(al)))
    an = None
    if rng.random() < 0.4:
        an = [0., float(rng.uniform(1, 5)), 0.3]
        kw['alpha_negative'] = PCS(list(an))
    if bias:
        kw['bias'] = bias
    if not case['jit']:
        kw['jit_enable'] = False
        obs.n('jit_off', case['n'])
    c = obs.call(f'{kind} constructor', fac, **kw)
    c2 = obs.call(f'{kind} constructor', fac)
    if dalpha is not None or kind in ('rv2', 'rv3', 'chief', 'deputy', 'cone', 'rmax', 'psm', 'psmdep', 'hoex'):
        obs.n('alpha_default')
        v = float(rng.normal())
        got = obs.call('alpha', c2.alpha, v)
        if dalpha is not None and not close(got, R.poly(dalpha, v), 1e-9, 1e-12):
            obs.violate(f'{kind}: default alpha({v}) = {got}, documented polynomial {dalpha} gives {R.poly(dalpha, v)}')
        if not (c2.alpha(1.0) > 0 > c2.alpha(-1.0) and abs(c2.alpha(0.0)) < 1e-12):
            obs.violate(f'{kind}: default alpha is not a strengthening function')
    if {k: float(v) for k, v in c.params.items()} != {k: float(v) for k, v in params.items()}:
        obs.violate(f'{kind}: params {c.params} instead of {params}')
        return
    if params:
        # instances do not share parameter storage
        obs.n('own_params')
        k0 = sorted(params)[0]
        c2.params[k0] = -123.
        if float(c.params[k0]) != float(params[k0]):
            obs.violate(f'{kind}: two constraints share their parameters')
    rc = R.RC(fn, params, bias, al, an, phi=phi)
    for i in range(case['n']):
        p = dict(params)
        if params and rng.random() < 0.6:
            p = {k: float(v) * float(rng.uniform(0.6, 1.5)) for k, v in params.items()}
            if kind in ('psm', 'psmdep'):
                p['dt'] = float(rng.choice([params['dt'], params['dt'] * 0.5]))
            if kind == 'cone':
                p['fov'] = min(p['fov'], 2.9)
            obs.n('explicit_params')
        x = draw(rng, p)
        xj = jnp.array(x)
        pj = p if p != params else c.params
        h, g, f = rc.h(x, p), rc.grad(x, p), rc.phi(x, p)
        val = obs.call(f'{kind} call', c, xj, pj)
        val2 = obs.call(f'{kind} compute', c.compute, xj, pj)
        gr = obs.call(f'{kind} grad', c.grad, xj, pj)
        ph = obs.call(f'{kind} phi', c.phi, xj, pj)
        sc = float(np.sum(np.abs(x)))
        det = dict(constraint=kind, state=x, params=p, bias=bias, value=val, expected=h, grad=gr, expected_grad=g, phi=ph, expected_phi=f)
        # conditioning: a value near a square-root branch amplifies rounding of the distance
        amp = 1.
        if kind in ('chief', 'deputy', 'rmax', 'cone'):
            dist = f if kind != 'cone' else np.linalg.norm(x[:3]) * np.sin(f)
            if abs(dist) < 1e-4 or not np.isfinite(f):
                obs.n('near_branch')
                continue
            amp = 1 + 1 / abs(dist)
        if kind in ('psm', 'psmdep'):
            d = np.sort(arr(x, p)[1:])
            if d[1] - d[0] < 1e-7 * (1 + sc):
                obs.n('tie')
                continue
            if i % 3 == 0:
                a = np.asarray(obs.call('get_array', c.get_array, xj, pj), float)
                wa = arr(x, p)
                obs.n('get_array')
                if a.shape != wa.shape or not close(a, wa, 1e-9, 1e-9 * (1 + sc)):
                    obs.violate(f'{kind}: get_array differs from the unforced future distances', got=a, want=wa, **det)
        tol = 1e-9 * amp * (1 + sc)
        obs.n(f'value:{kind}')
        if h < 0:
            obs.n(f'negative:{kind}')
        obs.judged((kind, h < 0, tuple(np.round(x, 7)), tuple(sorted(p.items()))))
        obs.sample(**det)
        if not close(val, h, 1e-9 * amp, tol) or not close(val2, h, 1e-9 * amp, tol):
            obs.violate(f'{kind}: value {val} instead of {h}', **det)
        if not close(ph, f, 1e-9, 1e-9 * (1 + sc)):
            obs.violate(f'{kind}: phi {ph} instead of {f}', **det)
        gr = np.asarray(gr, float)
        gt = 1e-7 * amp * (1 + float(np.max(np.abs(g))))
        if gr.shape != g.shape or not close(gr, g, 1e-7, gt):
            obs.violate(f'{kind}: gradient {gr} instead of {g}', **det)
        v = float(rng.choice([h, rng.normal()]))
        a1, a2 = obs.call('alpha', c.alpha, v), obs.call('alpha_negative', c.alpha_negative, v)
        w2 = 10 * R.poly(al, v) if an is None else R.poly(an, v)
        obs.n('alpha_negative_default' if an is None else 'alpha_negative_given')
        if not close(a1, R.poly(al, v), 1e-9, 1e-12) or not close(a2, w2, 1e-9, 1e-12):
            obs.violate(f'{kind}: alpha({v})={a1}, alpha_negative={a2} instead of {R.poly(al, v)}, {w2}', **det)


def poly_case(case, obs, rng):
    for i in range(case['n']):
        n = int(rng.integers(1, 9))
        co = [float(v) for v in rng.normal(size=n) * 10.**rng.uniform(-3, 1)]
        if i % 7 == 0:
            co = [int(round(v)) for v in co]
        kw = {} if i % 20 == 0 else dict(coefs=co)
        if not kw:
            co = [0, 1]
        s = obs.call('strengthener', PCS, **kw)
        for x in (float(rng.normal() * 10.**rng.uniform(-3, 1)), 0.0, jnp.array(rng.normal(size=4))):
            xn = np.asarray(x, float)
            got = obs.call('strengthener call', s, x)
            want = np.polynomial.polynomial.polyval(xn, co)
            obs.n('poly')
            obs.judged(('poly', tuple(co), tuple(np.ravel(xn))))
            if not close(np.asarray(got, float) + 0 * xn, want, 1e-9, 1e-9 * sum(abs(c) * np.max(np.abs(xn))**k for k, c in enumerate(co))):
                obs.violate(f'polynomial {co} at {x}: {got} instead of {want}')

"""P01 returned controls within the actuator bounds"""
import numpy as np
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, mods, ref as R
from vp.sut import jnp, UBackup, SYS, SolverError

RULE = 'distinct (module, bounds, state, desired control) whose returned control was checked element by element; only calls where a bound was reached or the desired/backup control lay outside the bounds are counted'
ASSUMPTIONS = ['finite inputs', 'single-precision lane judged with a relative rounding tolerance of 1e-6 on the bound']
REQUIRE = {'desired_outside': 600, 'at_low': 200, 'at_high': 200, 'backup_outside': 40, 'solver_gave_up': 60, 'one_sided': 100, 'array_bounds': 300, 'zero_bound_outside': 80, 'after_disabled': 20}

BK = [None, 30., 1e4]


def bounds(rng, nu, form, mag=1.0):
    l = -mag * rng.uniform(0.1, 1.5, nu)
    h = mag * rng.uniform(0.1, 1.5, nu)
    if form == 'offset':       # a band that excludes zero
        l = mag * rng.uniform(0.05, 0.3, nu)
        h = l + mag * rng.uniform(0.1, 1., nu)
        return l, h
    if form == 'scalar':
        return float(-mag * rng.uniform(.3, 1)), float(mag * rng.uniform(.3, 1))
    if form == 'int':
        return -1, 2
    if form == 'list':
        return l.tolist(), h.tolist()
    if form == 'array':
        return l, h
    if form == 'jnp':
        return jnp.array(l), jnp.array(h)
    if form == 'low':
        return float(-mag), None
    if form == 'high':
        return None, float(mag)
    if form == 'lowarr':
        return l, None
    if form == 'tiny':
        return (-1e-6 * np.ones(nu)).tolist(), (1e-6 * np.ones(nu)).tolist()
    if form == 'zhigh':        # one sided at zero
        return None, 0.0
    if form == 'zlow':
        return 0, None
    if form == 'zero':
        return [(0, float(mag)), (float(-mag), 0), (0.0, h), (np.zeros(nu), h), (l.tolist(), [0.] * nu)][int(rng.integers(5))]
    return float(-mag), h


FORMS = ['scalar', 'zhigh', 'list', 'array', 'zero', 'jnp', 'low', 'zlow', 'high', 'lowarr', 'tiny', 'mixed', 'int', 'offset']


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 4
    for r in range(k):
        i = 0
        for kind in ('esimplex', 'isimplex', 'easif', 'iasif', 'dasif'):
            sl = list(lib.USYS)
            for j, sysn in enumerate(sl):
                for q in range(2):
                    form = FORMS[(i + r * 3) % len(FORMS)]
                    i += 1
                    out.append(dict(spec=dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'p01c', i, r), window=0.4 if kind[0] == 'i' else None), form=form, bk=(i % 3), seed=case_seed(seed, 'p01', i, r),
                                    n=60 if tier == 'quick' else 200, x64=bool(i % 4), w=2))
            for z in lib.zoo_specs(kind):
                heavy = z['fam'].startswith('insp')
                form = FORMS[(i + r * 5) % len(FORMS)]
                i += 1
                out.append(dict(spec=z, form=form, seed=case_seed(seed, 'p01z', i, r), n=(40 if heavy else 50) * (1 if tier == 'quick' else 3), x64=bool(i % 3), w=8 if heavy else 2))
        for z in [dict(fam='deltav', bounds='var', bseed=r), dict(fam='deltav', bounds=[-.3, .2]), dict(fam='icascade', bounds=[-.4, .3]), dict(fam='combined', nd=2, bounds=[-.5, .25]), dict(fam='combined', nd=3, bounds=[-.5, .8]),
                  dict(fam='ucascade', sys='di2', subs=[dict(kind='easif', cseed=1, bounds=[-1, 1]), dict(kind='esimplex', cseed=2, bounds=[-2, 2])], bounds=[-.5, .4])]:
            i += 1
            out.append(dict(spec=z, form=None, seed=case_seed(seed, 'p01m', i, r), n=30 * (1 if tier == 'quick' else 3), x64=True, w=9))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = dict(case['spec'])
    x64 = case.get('x64', True)
    kw = {}
    if case['form']:
        nu = {'integrator': 1, 'docking2': 2}.get(sp['fam'], 3) if sp['fam'] != 'user' else SYS[sp['sys']].nu
        lo, hi = bounds(rng, nu, case['form'])
        if sp['fam'] == 'user':
            s = lib.mk(sp)
            s.lo, s.hi = lo, hi
            if case.get('bk') and sp['kind'] in ('esimplex', 'isimplex', 'iasif'):
                gain = BK[case['bk']]
                k0 = SYS[sp['sys']].k
                kw['backup'] = UBackup(lambda xp, x: gain * k0(xp, x) + 0.3 * gain)
            build = lambda **k: base_build(sp, lo, hi, {**kw, **k})  # noqa
            m = mods.M(s.name, build, s.draw, s.nu, lo, hi, s.dts, scn=s, kind=s.kind)
        else:
            over = dict(sp.get('over', {}))
            sp['over'] = dict(over, control_bounds_low=lo, control_bounds_high=hi)
            s = lib.mk(sp)
            m = mods.M(s.name, s.build, s.draw, s.nu, lo, hi, s.dts, scn=s, kind=s.kind)
    else:
        m = mods.gmk(sp)
    hist = case['seed'] % 3 if case['form'] else 0      # 1: disabled stretches and resets in between, 2: latches
    bkw = {}
    if hist == 2 and m.kind in ('esimplex', 'isimplex'):
        bkw['latch_time'] = 2.5 * m.dts[0]
    mod = obs.call('constructor', m.build, **bkw)
    L = None if m.lo is None else np.broadcast_to(np.asarray(m.lo, float), (m.nu,))
    H = None if m.hi is None else np.broadcast_to(np.asarray(m.hi, float), (m.nu,))
    tol = 1e-12 if x64 else 2e-6
    bkf = None
    if sp['fam'] == 'user' and sp['kind'] in ('esimplex', 'isimplex', 'iasif'):
        g = BK[case.get('bk') or 0]
        k0 = SYS[sp['sys']].k
        bkf = (lambda x: np.asarray(k0(np, x))) if g is None else (lambda x: g * np.asarray(k0(np, x)) + 0.3 * g)
    for i in range(case['n']):
        x, dt = m.draw(rng), float(rng.choice(m.dts))
        if hist == 1 and rng.random() < 0.12:
            mod.enable = False
            obs.call('filter_control (disabled)', mod.filter_control, np.array(x), dt, lib.wild_u(rng, m))
            mod.enable = True
            obs.n('after_disabled')
        if hist == 1 and rng.random() < 0.05:
            obs.call('reset', mod.reset)
        ud = lib.wild_u(rng, m) if rng.random() < 0.7 else m.draw_u(rng)
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        obs.n('calls')
        un = np.asarray(u, float)
        det = dict(module=m.name, bounds=[m.lo, m.hi], state=x, dt=dt, desired=ud, returned=u, backup_gain=BK[case.get('bk') or 0])
        if warned:
            obs.n('solver_gave_up')
        out = (L is not None and np.any(ud < L)) or (H is not None and np.any(ud > H))
        nt = out
        if out:
            obs.n('desired_outside')
        if L is None or H is None:
            obs.n('one_sided')
        if case['form'] in ('zhigh', 'zlow', 'zero') and out:
            obs.n('zero_bound_outside')
        if case['form'] in ('list', 'array', 'jnp', 'lowarr', 'tiny', 'mixed', 'offset'):
            obs.n('array_bounds')
        if un.shape != (m.nu,):
            obs.violate(f'{m.name}: control of shape {un.shape} for a desired control of shape {ud.shape}', **det)
        if not np.all(np.isfinite(un)):
            obs.violate(f'{m.name}: non-finite control {un}', **det)
        if bkf is not None and mod.intervening:
            b = bkf(x)
            if (L is not None and np.any(b < L)) or (H is not None and np.any(b > H)):
                obs.n('backup_outside')
                nt = True
        if L is not None:
            if np.any(un <= L + tol * np.abs(L)):
                obs.n('at_low')
                nt = True
            if np.any(un < L - tol * (1e-3 + np.abs(L))):
                obs.violate(f'{m.name}: returned {un} below the lower bound {L}', **det)
        if H is not None:
            if np.any(un >= H - tol * np.abs(H)):
                obs.n('at_high')
                nt = True
            if np.any(un > H + tol * (1e-3 + np.abs(H))):
                obs.violate(f'{m.name}: returned {un} above the upper bound {H}', **det)
        obs.judged((m.name, case['form'], tuple(np.round(x, 6)), tuple(np.round(ud, 6))), nontrivial=nt)
        if nt:
            obs.sample(**det)


def base_build(sp, lo, hi, kw):
    from vp.sut import user_scn
    s = user_scn(sp['kind'], sp['sys'], sp.get('cseed', 0), lo, hi, window=sp.get('window'), umag=1.0)
    return s.build(**kw)

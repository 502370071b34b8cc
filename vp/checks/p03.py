"""P03 explicit simplex decision"""
import numpy as np
from vp.core import case_seed
from vp import lib

KIND = 'esimplex'
RULE = 'distinct (module, state, step size, desired control) whose decision (switch or pass) was compared with the reference prediction; trivially safe passes (margin > 1) are not counted'
ASSUMPTIONS = ['decisions whose reference margin is below the rounding tolerance are counted as ambiguous and not judged']
REQUIRE = {'switch': 200, 'pass': 200, 'switch_near_boundary': 100, 'pass_near_boundary': 100, 'switch_after_latch': 40, 'pass_after_latch': 40, 'switch_very_near': 40, 'pass_very_near': 40}


def specs(tier, seed, kind):
    out = []
    k = 3 if tier == 'quick' else 12
    for sp in lib.zoo_specs(kind):
        for j in range(k):
            d = dict(sp, over=dict(sp.get('over', {})))
            if j:
                d.update(bounds='var', bseed=case_seed(seed, 'b', j))
                if j % 2:
                    d['over']['integration_method'] = 'Euler' if lib.method_of(d) == 'RK45' else 'RK45'
                if kind == 'isimplex':
                    d['window'] = [2.0, 1.0, 3.7, 10][j % 4]
            out.append(d)
    for sysn in lib.USYS:
        for j in range(k):
            d = dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'c', sysn, j), bounds='var' if j else None, bseed=j)
            if kind == 'isimplex':
                d['window'] = [0.5, 0.83, 1.2, 0.3][j % 4]
            out.append(d)
    return out


def cases(tier, seed, kind=KIND):
    out = []
    n = {'esimplex': 120, 'isimplex': 50}[kind] * (1 if tier == 'quick' else 4)
    for i, sp in enumerate(specs(tier, seed, kind)):
        for jit in ([True] if i % 3 else [True, False]):
            out.append(dict(spec=sp, seed=case_seed(seed, 'p03', i, jit), jit=jit, n=n if jit else max(6, n // 3), latch=(i % 3 == 1) or (i % 3 == 0 and not jit), w=2 if jit else 3))
    if kind == 'isimplex':      # long windows
        for i, sp in enumerate([dict(fam='user', kind=kind, sys='di1', window=3.1), dict(fam='user', kind=kind, sys='full2', window=2.6), dict(fam='docking2', kind=kind, window=48.), dict(fam='integrator', kind=kind, window=40.),
                                dict(fam='user', kind=kind, sys='di1', window=4.2, late=True), dict(fam='user', kind=kind, sys='di2', window=7.1, late=True)]):
            for r in range(1 if tier == 'quick' else 4):
                out.append(dict(spec=dict(sp, cseed=case_seed(seed, 'lw', i, r), bounds=[-1, 1]), seed=case_seed(seed, 'p04l', i, r), jit=True, n=16, latch=False, w=4, long=True))
    # single precision lane: the precision users get by default
    for i, sp in enumerate(lib.zoo_specs(kind)):
        out.append(dict(spec=sp, seed=case_seed(seed, 'p03f', i), jit=True, n=n // 2, x64=False))
    return out


def run_case(case, obs, kind=KIND):
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    x64 = case.get('x64', True)
    # with a latch, the decisions between latches are the ones judged here (the latch itself is P05)
    L = 2.5137 * min(s.dts) if case.get('latch') else 0
    mod = obs.call('constructor', s.build, jit_enable=case['jit'], **({'latch_time': L} if L else {}))
    on, el = False, 0.
    rel = lib.relerr(x64, lib.method_of(sp))
    fine = rel < 1e-10
    base = {k: dict(c.params) for k, c in s.cons.items()}
    for i in range(case['n']):
        x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts))
        if rng.random() < 0.15:
            ud = lib.wild_u(rng, s)
            ud = np.clip(ud, -100, 100)
        if sp.get('late'):
            x, dt = np.concatenate([x[:s.nx // 2], np.abs(x[s.nx // 2:])]), float(rng.choice([0.05, 0.1]))
        if sp.get('late') or rng.random() < 0.5:
            if sp['fam'] == 'integrator':   # translation moves the margin
                hm = min(s.cons['rel_vel'].h(y) for y in lib.simplex_traj(s, x, dt, ud))
                x[0] += (hm - rng.choice([-1, 1]) * 10.**rng.uniform(-10 if fine and rng.random() < 0.6 else -5, -1.5)) / (2 if kind == 'esimplex' else 1)
                obs.n('tuned_to_boundary')
            elif lib.tune_simplex(s, mod, rng, x, dt, ud, fine=fine and rng.random() < 0.6):
                obs.n('tuned_to_boundary')
        if case.get('long'):
            obs.n('long_window')
            if sp.get('late') and int(np.argmin([s.cons['wall'].h(y) for y in lib.simplex_traj(s, x, dt, ud)])) > 30:
                obs.n('late_binding')
        if on and el < L:
            obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud))
            el += dt
            obs.n('latched_calls_not_judged')
        else:
            _, dec = lib.check_simplex(obs, s, mod, x, dt, ud, rel, 1e-9 if x64 else 2e-5, rng)
            if L and on and dec is not None:
                obs.n('switch_after_latch' if dec else 'pass_after_latch')
            on, el = bool(mod.intervening), 0.
        for k, p in base.items():
            s.cons[k].params.update(p)
            mod.constraints[k].params.update(p)

"""P05 latch: online checker of the latch automaton over call histories"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R

RULE = 'distinct latch situations (module, phase, time since intervention, latch time, step size, monitor answer) at which the automaton was compared with the module'
ASSUMPTIONS = ['whether the intervening step itself counts towards the latch time is not prescribed beyond the documented rule (time accumulates over the steps after the intervention)',
               'sums of step sizes that equal the latch time only up to rounding are not judged, except where the sums are exact in binary']
REQUIRE = {'held': 300, 'consulted_after_latch': 60, 'released': 30, 'relatched': 30, 'expired_exactly': 20, 'held_with_safe_desired': 100, 'zero_latch_consulted': 40, 'other_time_scale': 500, 'disabled_while_latched': 20, 'held_by_a_hair': 6, 'expired_by_a_hair': 6}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    sp = [dict(fam='user', kind='esimplex', sys='di1'), dict(fam='user', kind='isimplex', sys='di1', window=0.5), dict(fam='user', kind='esimplex', sys='di2'),
          dict(fam='user', kind='isimplex', sys='full2', window=0.5), dict(fam='integrator', kind='esimplex'), dict(fam='integrator', kind='isimplex'),
          dict(fam='docking2', kind='esimplex'), dict(fam='docking2', kind='isimplex'), dict(fam='docking3', kind='esimplex'), dict(fam='docking3', kind='isimplex')]
    for r in range(k):
        for i, s in enumerate(sp):
            for j, latch in enumerate([0, 0.5, 1.0, 0.25, 0.625, 5.0, 0.3, 2.5][:8]):
                if tier == 'quick' and (i + j) % 2 and j not in (1, 4):
                    continue
                d = dict(s, cseed=case_seed(seed, 'c', i, r), bounds='var' if (i + j + r) % 3 else [-1, 1], bseed=j)
                out.append(dict(spec=d, latch=latch, seed=case_seed(seed, 'p05', i, j, r), n=(70 if s['kind'] == 'esimplex' else 45) * (1 if tier == 'quick' else 3), jit=True,
                                mixed=bool((i + j) % 2)))
    # other time scales: powers of two keep the sums exact
    for r in range(k):
        for i, s in enumerate(sp):
            if s['kind'] != 'esimplex':
                continue
            for j, (sc, fine) in enumerate([(2.**-7, 1), (1, 2.**-5), (2.**-10, 1), (8., 1)]):
                d = dict(s, cseed=case_seed(seed, 'cs', i, r), bounds=[-1, 1], bseed=j)
                out.append(dict(spec=d, latch=[0.5, 0.625][(i + j) % 2] * sc, scale=sc, fine=fine, seed=case_seed(seed, 'p05s', i, j, r), n=90 if fine == 1 else 180, jit=True, mixed=bool((i + j) % 2)))
    # a latch time missed by the steps by a hair (more than rounding, less than anything a user could see otherwise)
    for r in range(k):
        for i, s in enumerate(sp[:3:2] + sp[4:5]):
            for j, eps in enumerate([2.**-26, -2.**-26]):
                out.append(dict(spec=dict(s, cseed=case_seed(seed, 'ch', i, r), bounds=[-1, 1]), latch=0.5 + eps, hair=True, seed=case_seed(seed, 'p05h', i, j, r), n=200, jit=True, mixed=bool(i % 2)))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp, L = case['spec'], case['latch']
    s = lib.mk(sp)
    mod = obs.call('constructor', s.build, jit_enable=case['jit'], latch_time=L)
    rel = lib.relerr(True, lib.method_of(sp))
    sc = case.get('scale', 1)
    exact = L == 0 or case.get('hair', False) or float(L / sc * 16).is_integer()
    if sp['fam'].startswith('docking'):
        dts = [0.5, 0.25, 1.0] if exact else [1.0, 0.3]
    else:
        dts = [0.125, 0.25, 0.0625] if exact else [0.1, 0.3]
    dts = [d * sc * case.get('fine', 1) for d in dts]
    if sc != 1 or case.get('fine', 1) != 1:
        obs.n('other_time_scale', case['n'])
    dt0 = float(rng.choice(dts))
    on, el = False, 0.

    def pick(want):
        for _ in range(200):
            x, ud = s.draw(rng), s.draw_u(rng)
            dt = float(rng.choice(dts)) if case['mixed'] else dt0
            dec, _, mn, _ = lib.simplex_decide(s, x, dt, ud, rel)
            if dec is not None and (want is None or dec == want) and abs(mn) > 1e-6:
                return x, ud, dt, dec
        return x, ud, dt, dec
    plan = []
    for i in range(case['n']):
        if not plan:
            plan = [True] if rng.random() < 0.5 else [None] * int(rng.integers(1, 4))
            plan += [False] * int(rng.integers(0, 12 if case.get('fine', 1) == 1 else 100)) + [None] * int(rng.integers(0, 3)) + [True] * int(rng.integers(0, 3))
        if rng.random() < 0.03:
            obs.call('reset', mod.reset)
            on, el = False, 0.
            obs.n('resets')
        if rng.random() < (0.08 if on and el > 0 else 0.01):      # disabled for a call or two: the module passes the desired control and no longer intervenes
            mod.enable = False
            for _ in range(int(rng.integers(1, 3))):
                x, ud, dt, dec = pick(None)
                u = obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud))
                if not np.array_equal(np.asarray(u), np.asarray(ud)) or mod.intervening:
                    obs.violate(f'{s.name}: disabled while latched: returned {np.asarray(u)} for {ud}, intervening={mod.intervening}', scenario=s.name, latch_time=L, state=x, dt=dt, desired=ud)
            mod.enable = True
            if on and 0 < el < L:
                obs.n('disabled_while_latched')
                plan = [True] + [False] * int(rng.integers(6, 14))
            on, el = False, 0.
        x, ud, dt, dec = pick(plan.pop(0))
        if dec is None:
            continue
        if on and not exact and 0 < abs(el - L) < 1e-9:
            obs.n('ambiguous_sum')
            break
        held = on and el < L
        if held:
            if case.get('hair') and L - el < 1e-7:
                obs.n('held_by_a_hair')
            el += dt
            want, flag = True, True
            phase = 'held'
            obs.n('held')
            if not dec:
                obs.n('held_with_safe_desired')
        else:
            if on and L > 0:
                obs.n('consulted_after_latch')
                obs.n('released' if not dec else 'relatched')
                if el == L:
                    obs.n('expired_exactly')
                if case.get('hair') and el > L and el - L < 1e-7:
                    obs.n('expired_by_a_hair')
            elif on:
                obs.n('zero_latch_consulted')
            phase = 'consult'
            want = flag = dec
            el = 0.
        u = obs.call('filter_control', mod.filter_control, np.array(x), dt, lib.u_in(rng, ud))
        exp = s.bk(x) if want else R.clip(ud, s.lo, s.hi)
        obs.judged((s.name, phase, round(el, 6), L, dt, dec), nontrivial=on or want)
        det = dict(scenario=s.name, latch_time=L, step=i, state=x, dt=dt, desired=ud, elapsed=el, phase=phase, monitor=dec, returned=u, expected=exp, intervening=mod.intervening)
        if phase == 'held' and i > 3:
            obs.sample(**det)
        if not lib.same(u, exp, 1e-9):
            obs.violate(f'{s.name}: latch {L}, {phase}, {el:.4g}s latched, monitor={dec}: returned {np.asarray(u)}, expected {exp}', **det)
        if bool(mod.intervening) != flag:
            obs.violate(f'{s.name}: latch {L}, {phase}: intervening={mod.intervening}, expected {flag}', **det)
        on = flag

"""P17 combined multi-deputy filtering"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import zn
from vp.spies import SpyRTA

RULE = 'distinct (number of deputies, state, joint desired control, flags) whose per-deputy inputs, outputs and flag were compared with separately filtered deputies'
ASSUMPTIONS = ['outside solver-infeasible situations the deputy filter itself is judged by P06; here it is driven separately with the documented per-deputy state']
REQUIRE = {'spy_deputies': 800, 'spy_flag_single': 40, 'spy_flag_none': 40, 'real_deputies': 80, 'real_interventions': 20, 'default_deputy_rta': 3, 'independent_of_others': 12, 'disabled_deputy_rta': 10, 'bound_active': 30}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    for r in range(k):
        for nd in (1, 2, 3, 4, 5, 6, 7, 9, 12):
            out.append(dict(mode='spy', nd=nd, seed=case_seed(seed, 'p17s', nd, r), steps=50))
        for nd in (1, 2, 3, 5):
            out.append(dict(mode='real', nd=nd, default=False, seed=case_seed(seed, 'p17r', nd, r), steps={1: 20, 2: 26, 3: 20, 5: 8}[nd] * (1 if tier == 'quick' else 3), w=6 * nd))
        for nd in (1, 2, 4):
            out.append(dict(mode='real', nd=nd, default=True, seed=case_seed(seed, 'p17d', nd, r), steps={1: 8, 2: 10, 4: 5}[nd] * (1 if tier == 'quick' else 3), w=6 * nd))
        out.append(dict(mode='real', nd=5, default='all', seed=case_seed(seed, 'p17a', r), steps=4, w=40))
    return out


def own_state(x, i, nd):
    parts = [x[6 * j:6 * j + 6] for j in range(nd)]
    return np.concatenate([parts[i]] + [parts[j] for j in range(nd) if j != i] + [x[6 * nd:]])


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    nd = case['nd']
    bl, bh = [(-1, 1), (-0.4, 0.6), ([-0.5 - 0.05 * j for j in range(3 * nd)], 0.8)][int(rng.integers(3))]
    if case['mode'] == 'spy':
        log = []
        W, thr = rng.normal(size=(3, 6 * nd + 1)) * 0.1, float(rng.uniform(0.5, 2.5))
        fn = lambda x, dt, u: W @ x + 0.3 * u * dt  # noqa
        fl = lambda x, u: x[0] + u[0] > thr  # noqa
        dep = SpyRTA('deputy', log, fn, fl)
        mod = obs.call('constructor', zn.CombinedInspectionRTA, num_deputies=nd, deputy_rta=dep, control_bounds_low=bl, control_bounds_high=bh)
        for i in range(case['steps']):
            x, dt, ud = rng.normal(size=6 * nd + 1), float(rng.choice([1.0, 0.5])), rng.normal(size=3 * nd)
            if rng.random() < 0.15:
                ud = np.round(2 * ud)
            dep.enable = bool(rng.random() > 0.1)
            if not dep.enable:
                obs.n('disabled_deputy_rta')
            if rng.random() < 0.05:
                log.clear()
                obs.call('reset', mod.reset)
                if not any(e[1] == 'reset' for e in log) or not dep.enable:
                    obs.violate(f'combined module with {nd} deputies: reset did not reset the deputy filter')
            log.clear()
            u = obs.call('filter_control', mod.filter_control, lib.as_in(rng, x), dt, lib.u_in(rng, ud))
            want, flags = [], []
            for j in range(nd):
                xs, uj = own_state(x, j, nd), ud[3 * j:3 * j + 3]
                want.append(fn(xs, dt, uj) if dep.enable else uj)
                flags.append(bool(fl(xs, uj)) and dep.enable)
            want = R.clip(np.concatenate(want), bl, bh)
            if np.any(want != np.clip(want, -1e9, 1e9)) or np.any((want == np.broadcast_to(bl, want.shape)) | (want == np.broadcast_to(bh, want.shape))):
                obs.n('bound_active')
            det = dict(deputies=nd, state=x, dt=dt, desired=ud, returned=u, expected=want, flags=flags)
            calls = [e for e in log if e[1] == 'call']
            if dep.enable:
                if len(calls) != nd:
                    obs.violate(f'{nd} deputies: the deputy filter was consulted {len(calls)} times', **det)
                    continue
                left = list(range(nd))
                for e in calls:
                    m = [j for j in left if np.allclose(e[2], own_state(x, j, nd), rtol=1e-12, atol=0) and np.allclose(e[4], ud[3 * j:3 * j + 3], rtol=1e-12, atol=0) and e[3] == dt]
                    if not m:
                        obs.violate(f'{nd} deputies: the deputy filter was given state {e[2]} and control {e[4]}, which is no deputy\'s own view', **det)
                        break
                    left.remove(m[0])
                    obs.n('spy_deputies')
            obs.n('spy_flag_none' if not any(flags) else 'spy_flag_single' if sum(flags) == 1 else 'spy_flag_many')
            if not lib.same(u, want, 1e-9):
                obs.violate(f'{nd} deputies: returned {u} instead of {want}', **det)
            if bool(mod.intervening) != any(flags):
                obs.violate(f'{nd} deputies: intervening={mod.intervening}, deputies {flags}', **det)
            obs.judged((nd, case['seed'], i, tuple(flags)))
            if i == 2:
                obs.sample(**det)
        return
    s = lib.mk(dict(fam=f'inspn{nd}', kind='easif'))
    if case['default'] == 'all':
        bl, bh = -1, 1
        mod = obs.call('constructor', zn.CombinedInspectionRTA)
        obs.n('default_deputy_rta')
    elif case['default']:
        bl, bh = -1, 1
        mod = obs.call('constructor', zn.CombinedInspectionRTA, num_deputies=nd)
        obs.n('default_deputy_rta')
    else:
        mod = obs.call('constructor', zn.CombinedInspectionRTA, num_deputies=nd, deputy_rta=s.build(), control_bounds_low=bl, control_bounds_high=bh)
    twin = obs.call('deputy filter constructor', s.build)
    for i in range(case['steps']):
        x, dt = s.draw(rng), 1.0
        # put the troubled deputy at a random place
        k = int(rng.integers(nd))
        x = own_state(x, k, nd) if rng.random() < 0.5 else x
        ud = np.concatenate([s.draw_u(rng) for _ in range(nd)])
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        want, flags, bad = [], [], False
        for j in range(nd):
            v, _, w = lib.filter_qp(obs, twin, own_state(x, j, nd), dt, ud[3 * j:3 * j + 3])
            want.append(np.asarray(v, float))
            flags.append(bool(twin.intervening))
            bad |= bool(w)
            obs.n('real_deputies')
        want = R.clip(np.concatenate(want), bl, bh)
        det = dict(deputies=nd, state=x, desired=ud, returned=u, expected=want, flags=flags, default_deputy_rta=case['default'])
        if not lib.same(u, want, 1e-7):
            obs.violate(f'{nd} deputies: returned {u}, separately filtered deputies give {want}', **det)
        if bool(mod.intervening) != any(flags):
            obs.violate(f'{nd} deputies: intervening={mod.intervening}, deputies {flags}', **det)
        if any(flags):
            obs.n('real_interventions')
        obs.judged((nd, case['seed'], i, tuple(flags)), nontrivial=any(flags))
        obs.sample(**det)
        if nd > 1 and i % 2 == 0:
            # another deputy wants something else: this deputy's result must not change
            ud2 = ud.copy()
            j = int(rng.integers(nd))
            keep = slice(3 * j, 3 * j + 3)
            new = np.concatenate([s.draw_u(rng) for _ in range(nd)])
            new[keep] = ud[keep]
            u2, _, _ = lib.filter_qp(obs, mod, x, dt, new)
            obs.n('independent_of_others')
            if not lib.same(np.asarray(u2)[keep], np.asarray(u)[keep], 1e-9):
                obs.violate(f'{nd} deputies: deputy {j} gets {np.asarray(u2)[keep]} instead of {np.asarray(u)[keep]} when the others ask for something else', other=new, **det)

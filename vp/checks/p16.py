"""P16 a cascade is the composition of its members"""
import copy
import numpy as np
from vp.core import case_seed
from vp import lib, mods, ref as R
from vp.sut import rbase, z1, CARE_FALLBACKS
from vp.spies import SpyRTA

RULE = 'distinct (cascade, enable pattern, flag pattern, call) whose control, flag and recorded member calls were compared with the manual composition'
ASSUMPTIONS = ['members are legal RTA modules that do not modify the arrays they are given', 'the delta-v member of the zoo cascade is built with the Riccati fallback described in known_findings.json where scipy rejects the default design']
REQUIRE = {'spy_calls_checked': 700, 'flag_only_not_last': 60, 'flag_none': 100, 'disabled_member': 150, 'disabled_cascade': 25, 'real_compared': 150, 'real_interventions': 60, 'nested': 60, 'zoo_cascade': 20, 'both_members_intervened': 10, 'reset': 20, 'empty': 5, 'custom_state': 40, 'same_module_twice': 60}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 6
    for r in range(k):
        for n in (0, 1, 2, 3, 5, 8):
            for nest in ((False, True) if n > 1 else (False,)):
                out.append(dict(mode='spy', n=n, nest=nest, seed=case_seed(seed, 'p16s', n, nest, r), steps=80))
        for n in (2, 4):     # one module listed twice
            out.append(dict(mode='spy', n=n, nest=False, dup=True, seed=case_seed(seed, 'p16dup', n, r), steps=60))
        pools = [('di2', [dict(kind='easif', cseed=1, bounds=[-1, 1]), dict(kind='esimplex', cseed=2, bounds=[-2, 2], latch=0.3)]),
                 ('di1', [dict(kind='esimplex', cseed=3, bounds=[-1, 1]), dict(kind='easif', cseed=4, bounds=[-1.5, 0.9])]),
                 ('full2', [dict(kind='iasif', cseed=5, bounds=[-1, 1], window=.4), dict(kind='dasif', cseed=6, bounds=[-2, 2]), dict(kind='isimplex', cseed=7, bounds=[-1, 1], window=.4, latch=0.2)]),
                 ('pend', [dict(kind='isimplex', cseed=8, bounds=[-1, 1], window=.3), dict(kind='isimplex', cseed=9, bounds=[-1, 1], window=.3, latch=0.2), dict(kind='easif', cseed=10, bounds=[-1, 1])])]
        for i, (sysn, subs) in enumerate(pools):
            for rev in (False, True):
                out.append(dict(mode='real', sys=sysn, subs=subs[::-1] if rev else subs, bounds=[None, [-0.8, 0.7]][(i + rev + r) % 2], seed=case_seed(seed, 'p16r', i, rev, r), steps=45 if tier == 'quick' else 100, w=6))
        for j in range(2):
            out.append(dict(mode='zoo', seed=case_seed(seed, 'p16z', r, j), steps=30 if tier == 'quick' else 80, w=8))
    return out


def spy_case(case, obs, rng):
    nu, nx = int(rng.integers(1, 5)), int(rng.integers(1, 8))
    n = case['n']
    log = []
    members, model = [], []
    for i in range(n):
        M, c, w = rng.normal(size=(nu, nu)), rng.normal(size=nu), rng.normal(size=nu)
        lo, hi = (None, None) if rng.random() < 0.5 else (-float(rng.uniform(0.5, 3)), float(rng.uniform(0.5, 3)))
        fn = lambda x, dt, u, M=M, c=c: M @ u * 0.5 + c * dt + 0.1 * x[0]  # noqa
        thr = float(rng.normal())
        fl = lambda x, u, w=w, thr=thr: w @ u > thr + (1.5 if case['seed'] % 2 else 0)  # noqa
        members.append((f'm{i}', fn, fl, lo, hi))
    objs = {}
    if case.get('dup'):
        members[n - 1] = members[int(rng.integers(n - 1))]

    def mk(k):
        nm, fn, fl, lo, hi = members[k]
        if nm in objs:
            return objs[nm]
        objs[nm] = SpyRTA(nm, log, fn, fl, control_bounds_low=lo, control_bounds_high=hi)
        return objs[nm]
    blo, bhi = (None, None) if rng.random() < 0.4 else (-1.7, [1.1 + 0.1 * j for j in range(nu)])
    inner = None
    if case['nest']:
        a, b = n // 3, n - n // 4
        if b - a < 1:
            a, b = 0, n

        def setup(self):
            nonlocal inner
            inner = mods.cascade_of([(lambda k=k: mk(k)) for k in range(a, b)], control_bounds_low=-5., control_bounds_high=6.)
            return [mk(k) for k in range(a)] + [inner] + [mk(k) for k in range(b, n)]
        casc = obs.call('constructor', type('Nest', (rbase.CascadedRTA,), {'_setup_rta_list': setup}), control_bounds_low=blo, control_bounds_high=bhi)
    else:
        casc = obs.call('constructor', mods.cascade_of, [(lambda k=k: mk(k)) for k in range(n)], control_bounds_low=blo, control_bounds_high=bhi)
    en = [True] * n
    for i in range(case['steps']):
        if n and rng.random() < 0.35:
            k = int(rng.integers(n))
            on = not en[k]
            for j in range(n):
                if members[j][0] == members[k][0]:
                    en[j] = on
            objs[members[k][0]].enable = on
        casc.enable = rng.random() > 0.1
        inner_on = True
        if inner is not None:
            inner_on = rng.random() > 0.15
            inner.enable = inner_on
            obs.n('nested')
        if rng.random() < 0.06:
            log.clear()
            obs.call('reset', casc.reset)
            obs.n('reset')
            seen = [e[0] for e in log if e[1] == 'reset']
            if set(seen) != set(objs):
                obs.violate(f'cascade.reset reset {seen} of {n} members')
            en = [True] * n
            inner_on = True
            if any(not o.enable for o in objs.values()) or not casc.enable or (inner is not None and not inner.enable):
                obs.violate('cascade.reset left a member disabled')
        x, dt, ud = rng.normal(size=nx), float(rng.choice([0.1, 0.5, 1.0])), rng.normal(size=nu) * 2
        if rng.random() < 0.15:
            ud = np.round(ud)
        log.clear()
        xin = lib.as_in(rng, x)
        if rng.random() < 0.15:      # a custom state type, as the interface allows
            xin = {'x': xin, 'label': 'custom'}
            obs.n('custom_state')
        u = obs.call('filter_control', casc.filter_control, xin, dt, lib.u_in(rng, ud))
        want_calls, flags = [], []
        v = ud.copy()
        if casc.enable:
            for k in range(n):
                nm, fn, fl, lo, hi = members[k]
                inside = inner is not None and a <= k < b
                if inside and not inner_on:
                    continue
                if en[k]:
                    want_calls.append((nm, v.copy()))
                    flags.append(bool(fl(x, v)))
                    v = R.clip(fn(x, dt, v), lo, hi)
                if inside and k == b - 1:
                    v = R.clip(v, -5., 6.)
            v = R.clip(v, blo, bhi)
        else:
            obs.n('disabled_cascade')
        if case.get('dup'):
            obs.n('same_module_twice')
        if n and not all(en):
            obs.n('disabled_member')
        if not n:
            obs.n('empty')
        wflag = any(flags)
        if wflag and not flags[-1]:
            obs.n('flag_only_not_last')
        if not wflag:
            obs.n('flag_none')
        det = dict(members=n, nested=case['nest'], enabled=en, cascade_enabled=casc.enable, state=x, dt=dt, desired=ud, returned=u, expected=v, flags=flags)
        calls = [(e[0], e[4]) for e in log if e[1] == 'call']
        if [c[0] for c in calls] != [c[0] for c in want_calls]:
            obs.violate(f'cascade called {[c[0] for c in calls]} instead of {[c[0] for c in want_calls]}', **det)
            continue
        for e in log:
            if e[1] == 'call' and (not np.allclose(e[2], x, rtol=1e-12, atol=0) or e[3] != dt):
                obs.violate(f'{e[0]} was given state {e[2]}, step {e[3]}', **det)
        for (nm, g), (_, w) in zip(calls, want_calls):
            obs.n('spy_calls_checked')
            if not lib.same(g, w, 1e-9):
                obs.violate(f'{nm} was asked to filter {g} instead of the previous output {w}', **det)
        if not lib.same(u, v, 1e-9):
            obs.violate(f'cascade returned {u} instead of {v}', **det)
        if bool(casc.intervening) != wflag:
            obs.violate(f'cascade reports intervening={casc.intervening}, member flags on this call {flags}', **det)
        obs.judged((case['seed'], i, tuple(en), tuple(flags)))
        if i == 3:
            obs.sample(**det)


def real_case(case, obs, rng):
    zoo = case['mode'] == 'zoo'
    if zoo:
        casc = obs.call('constructor', z1.InspectionCascadedRTA)
        twins = [z1.Inspection1v1RTA(), z1.SwitchingDeltaVLimitRTA()]
        s0 = lib.mk(dict(fam='insp1', kind='easif'))
        draw, nu, dts, lo, hi = s0.draw, 3, [1.0, 10.], None, None
        draw_u = s0.draw_u
        if len(casc.rta_list) != 2:
            obs.violate(f'the inspection cascade has {len(casc.rta_list)} members')
            return
    else:
        subs = []
        for d in case['subs']:
            d = dict(d)
            kw = {'latch_time': d.pop('latch')} if 'latch' in d else {}
            subs.append((lib.mk(dict(fam='user', sys=case['sys'], **d)), kw))
        lo, hi = case['bounds'] or (None, None)
        casc = obs.call('constructor', mods.cascade_of, [(lambda s=s, kw=kw: s.build(**kw)) for s, kw in subs], control_bounds_low=lo, control_bounds_high=hi)
        twins = [s.build(**kw) for s, kw in subs]
        s0 = subs[0][0]
        draw, nu, dts, draw_u = s0.draw, s0.nu, [0.1, 0.05], s0.draw_u
    en = [True] * len(twins)
    for i in range(case['steps']):
        if rng.random() < 0.2:
            k = int(rng.integers(len(twins)))
            en[k] = not en[k]
            casc.rta_list[k].enable = twins[k].enable = en[k]
        if rng.random() < 0.06:
            obs.call('reset', casc.reset)
            obs.n('reset')
            for t in twins:
                t.reset()
            en = [True] * len(twins)
        x, dt, ud = draw(rng), float(rng.choice(dts)), draw_u(rng)
        if zoo and rng.random() < 0.6:
            x[7] = rng.uniform(0, 19.99)
        u, raised, warned = lib.filter_qp(obs, casc, x, dt, ud)
        v, flags = ud.copy(), []
        for t in twins:
            v, _, _ = lib.filter_qp(obs, t, x, dt, v)
            v = np.asarray(v, float)
            flags.append(bool(t.intervening))
        v = R.clip(v, lo, hi)
        obs.n('real_compared')
        if zoo:
            obs.n('zoo_cascade')
        if any(flags):
            obs.n('real_interventions')
        if sum(flags) > 1:
            obs.n('both_members_intervened')
        if not all(en):
            obs.n('disabled_member')
        det = dict(cascade='inspection' if zoo else [t.name for t, _ in subs], enabled=en, state=x, dt=dt, desired=ud, returned=u, expected=v, flags=flags)
        if not lib.same(u, v, 1e-9):
            obs.violate(f'cascade returned {u}, its members in order give {v}', **det)
        if bool(casc.intervening) != any(flags):
            obs.violate(f'cascade reports intervening={casc.intervening}, members {flags}', **det)
        obs.judged((case['seed'], i, tuple(en), tuple(flags)), nontrivial=any(flags))
        obs.sample(**det)


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    (spy_case if case['mode'] == 'spy' else real_case)(case, obs, rng)

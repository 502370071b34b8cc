"""P09 slack semantics"""
import numpy as np
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import user_scn, C, SYS, libpair, ucpair, bounds_variants
from vp.checks.p06 import make_direct

RULE = 'distinct (module, state, desired control, slack configuration) judged: hard rows kept, slack rows kept when jointly feasible (bracketing QP), least violation and priority order otherwise'
ASSUMPTIONS = ['how the priority enters the objective (the documentation says p, the quadratic-program modules use its square root) is not judged: every bound used here holds for any weight between sqrt(p) and p',
               'violation of one slack constraint is counted once for all points of an implicit trajectory, like the module does']
REQUIRE = {'jointly_feasible_modified': 150, 'slack_needed': 40, 'priority_order': 60, 'hard_active_with_slack': 40, 'discrete': 60, 'implicit': 100, 'three_or_more_slacks': 100}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    for r in range(k):
        for kind in ('easif', 'iasif'):
            for i, sysn in enumerate(lib.USYS):
                for j in range(3):
                    out.append(dict(mode='mix', kind=kind, sys=sysn, cseed=case_seed(seed, 'p09c', kind, i, j, r), seed=case_seed(seed, 'p09', kind, i, j, r), n=60 if tier == 'quick' else 200,
                                    direct=(j == 1), pattern=j, bounds=j != 2, w=2))
        for kind in ('easif', 'iasif', 'dasif'):
            for i, sysn in enumerate(['di1', 'di2', 'full2', 'full3']):
                out.append(dict(mode='conflict', kind=kind, sys=sysn, seed=case_seed(seed, 'p09k', kind, i, r), n=16 if tier == 'quick' else 60, w=2))
        for kind in ('easif', 'iasif'):
            for i, sysn in enumerate(['full2', 'full3', 'full4']):
                out.append(dict(mode='many', kind=kind, sys=sysn, seed=case_seed(seed, 'p09m', kind, i, r), n=32 if tier == 'quick' else 100, w=3))
        for i, sysn in enumerate(['di1', 'di2', 'pend', 'full2']):
            out.append(dict(mode='disc', kind='dasif', sys=sysn, cseed=case_seed(seed, 'p09d', i, r), seed=case_seed(seed, 'p09dd', i, r), n=40 if tier == 'quick' else 150, pattern=i, w=3))
    return out


def run_case(case, obs):
    globals()['run_' + case['mode']](case, obs)


def run_mix(case, obs):
    rng = np.random.default_rng(case['seed'])
    S = SYS[case['sys']]
    p = float(rng.choice([1e10, 1e11, 1e12]))
    W = np.sqrt(p)
    pat = case['pattern']
    slackf = lambda i: p if [i % 2 == 0, i == 1, i >= 1][pat] else None  # noqa
    lo, hi = (None, None) if not case['bounds'] else bounds_variants(S.nu, float(rng.choice([1.0, 0.3])), rng)
    sub = (lambda i: {'subsample_constraints_num_least': 2, 'keep_first': True}) if case['kind'] == 'iasif' and pat == 1 else None
    s = user_scn(case['kind'], case['sys'], case['cseed'], lo, hi, window=0.4 if case['kind'] == 'iasif' else None, slackf=slackf, subf=sub)
    kw, rf = {}, None
    if case['direct']:
        mk, rf = make_direct(rng, s.nu, 1)
        kw['direct'] = mk
    mod = obs.call('constructor', s.build, **kw)
    names = [k for k, c in s.cons.items() if c.slack is not None]
    base = {k: dict(c.params) for k, c in s.cons.items()}
    for i in range(case['n']):
        x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts))
        if rng.random() < 0.3:
            lib.tune_qp(s, mod, rng, x)
        if rng.random() < 0.15:
            k = list(s.cons)[int(rng.integers(len(s.cons)))]
            s.cons[k].enabled = not s.cons[k].enabled
            mod.constraints[k].enabled = s.cons[k].enabled
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        q = lib.qp_rows(s, x, dt, rf)
        if q is None or u is None:
            obs.n('ambiguous')
        else:
            judge(obs, s, q, names, np.asarray(u, float), ud, x, dt, W, warned, p)
        for k_, pp in base.items():
            s.cons[k_].params.update(pp)
            mod.constraints[k_].params.update(pp)


def judge(obs, s, q, names, un, ud, x, dt, W, warned, p):
    soft = np.array([names.index(n) if n in names else -1 for n in q.names])
    hardA, hardb = q.A[soft < 0], q.b[soft < 0]
    det = dict(scenario=s.name, slack=names, priority=p, state=x, dt=dt, desired=ud, returned=un, rows=q.A[:25], b=q.b[:25], row_names=q.names[:25])
    if R.proj(ud, hardA, hardb + q.eps[soft < 0] + 1e-9) is None:
        obs.n('hard_infeasible')
        return
    nr = np.linalg.norm(q.A, axis=1)
    res = q.A @ un - q.b
    bad = (soft < 0) & (res < -q.eps - 1e-8 * (1 + nr) - 1e-8 * np.abs(q.b))
    if warned:
        obs.violate(f'{s.name}: solver failure although the constraints without slack are feasible', **det)
        return
    if np.any(bad):
        i = int(np.argmax(bad))
        obs.violate(f'{s.name}: hard row {q.names[i]} violated by {-res[i]:.4g} while other constraints have slack', **det)
        return
    if s.kind == 'iasif':
        obs.n('implicit')
    moved = np.linalg.norm(un - ud) > 1e-6
    if np.any((soft < 0) & (np.abs(res) < 1e-6 * (1 + nr))) and moved:
        obs.n('hard_active_with_slack')
    full = R.proj_dual(ud, q.A, q.b + q.eps)
    key = (s.name, tuple(np.round(x, 6)), tuple(np.round(ud, 6)), tuple(names))
    if full is not None:
        lam = sum(full[1][soft >= 0])
        if lam > 1e4:
            obs.n('ambiguous')
            return
        eps = q.eps.copy()
        eps[soft >= 0] += 2 * lam / W + 1e-8
        v, info = R.judge_qp(un, ud, q.A, q.b, eps + 1e-8)
        if v in ('ambiguous', 'infeasible'):
            obs.n('ambiguous')
            return
        obs.n('jointly_feasible')
        if moved:
            obs.n('jointly_feasible_modified')
        obs.judged(key, nontrivial=moved)
        if v.startswith('bad'):
            obs.violate(f'{s.name}: all constraints can hold together but {v[4:]}: returned {un}, without slack {info["ref"]} (allowance {2 * lam / W:.2g})', **det, info=info)
        return
    r = R.soft_min(ud, q.A, q.b, soft)
    if r is None:
        obs.n('ambiguous')
        return
    uv, vv = r
    mine = R.group_viol(un, q.A, q.b, soft)
    if max(vv) < 1e-5:
        obs.n('ambiguous')
        return
    obs.n('slack_needed')
    obs.judged(key)
    bound = np.sqrt(np.sum(vv**2) + np.sum((uv - ud)**2) / W)
    obs.sample(**{k: det[k] for k in ('scenario', 'slack', 'state', 'desired', 'returned')}, violation=mine, least=vv)
    if np.linalg.norm(mine) > bound + 1e-5 * (1 + bound):
        obs.violate(f'{s.name}: slack constraints violated by {mine}, {vv} is attainable at {uv}', **det)


def conflict_cons(sysn, rng, hi_first, hi_name, ratio, p_lo):
    """two directly opposed constraints on one component plus a harmless hard one; the gap is fixed by the limits"""
    S = SYS[sysn]
    idx = {'di1': 1, 'di2': 3, 'full2': 1, 'full3': 2}[sysn]
    c = float(rng.uniform(-.3, .3))
    gap = float(rng.uniform(0.3, 1.2))
    al = (0, float(rng.uniform(0.5, 2)))
    pr = {'upper': p_lo, 'lower': p_lo}
    pr[hi_name] = p_lo * ratio
    out = OrderedDict()
    up = libpair(C.ConstraintMaxStateLimit, R.lim_max, c - gap / 2, idx, al, 0., pr['upper'], {})
    dn = libpair(C.ConstraintMinStateLimit, R.lim_min, c + gap / 2, idx, al, 0., pr['lower'], {})
    hard = ucpair(lambda xp, x, p: p['r']**2 - xp.sum(x * x), {'r': 30.}, alpha=(0, 2.))
    seq = [('upper', up), ('lower', dn)] if hi_first else [('lower', dn), ('upper', up)]
    seq.insert(int(rng.integers(0, 3)), ('ball', hard))
    for k, v in seq:
        out[k] = v
    return out, idx, c, gap, al[1]


def run_conflict(case, obs):
    rng = np.random.default_rng(case['seed'])
    disc = case['kind'] == 'dasif'
    for t in range(case['n']):
        if t % 4 == 0:
            hi_name = ['upper', 'lower'][(t // 4) % 2]
            ratio = float(rng.choice([1e4, 1e5, 1e6])) if not disc else 1e4
            p_lo = 1e8 if not disc else 1e4
            cons, idx, c, gap, al = conflict_cons(case['sys'], rng, bool(rng.integers(2)), hi_name, ratio, p_lo)
            s = user_scn(case['kind'], case['sys'], 0, -50., 50., window=0.2 if case['kind'] == 'iasif' else None, cons=cons)
            mod = obs.call('constructor', s.build, jit_enable=bool(rng.integers(2)) or case['kind'] != 'easif')
        x = s.draw(rng) * 0.3
        if case['kind'] == 'easif':
            x[idx] = c + 0.0   # inside both strengthening branches: h = -gap/2 each
        ud, dt = s.draw_u(rng), float(rng.choice(s.dts))
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        det = dict(scenario=s.name, higher=hi_name, ratio=ratio, state=x, dt=dt, desired=ud, returned=u, order=list(s.cons))
        if warned:
            if disc:
                obs.n('solver_failure')
                continue
            obs.violate(f'{s.name}: solver failure although both conflicting constraints have slack', **det)
            continue
        un = np.asarray(u, float)
        if disc:
            vals = dict(zip([k for k in s.cons], lib.disc_vals(s, x, dt, un)))
            obs.n('discrete')
        else:
            q = lib.qp_rows(s, x, dt)
            if q is None:
                obs.n('ambiguous')
                continue
            res = q.A @ un - q.b
            vals = {k: min(r for r, n in zip(res, q.names) if n == k) for k in ('upper', 'lower', 'ball')}
        v = {k: max(0., -vals[k]) for k in vals}
        lo_name = 'lower' if hi_name == 'upper' else 'upper'
        if v['ball'] > 1e-6:
            obs.violate(f'{s.name}: constraint without slack violated by {v["ball"]:.4g}', **det)
        if v[lo_name] + v[hi_name] < 0.05:
            obs.n('no_conflict_here')
            continue
        obs.n('priority_order')
        obs.judged((s.name, hi_name, tuple(s.cons), tuple(np.round(x, 5)), ratio))
        obs.sample(**det, violation=v)
        if v[hi_name] > 0.1 * v[lo_name] + 1e-4:
            obs.violate(f'{s.name}: priority {ratio:g} times higher for {hi_name}, but it is violated by {v[hi_name]:.4g} against {v[lo_name]:.4g}', **det)


def many_cons(sysn, rng, p):
    """one opposed pair and several constraints on other components, most of them with slack of the same priority, in any order"""
    nx = SYS[sysn].nx
    a = int(rng.integers(nx))
    c, gap = float(rng.uniform(-.2, .2)), float(rng.uniform(0.3, 1.0))
    seq = [('upper', libpair(C.ConstraintMaxStateLimit, R.lim_max, c - gap / 2, a, (0, float(rng.uniform(0.5, 2))), 0., p, {})),
           ('lower', libpair(C.ConstraintMinStateLimit, R.lim_min, c + gap / 2, a, (0, float(rng.uniform(0.5, 2))), 0., p, {}))]
    for b in range(nx):
        if b != a:
            for cls, fn, sg in ((C.ConstraintMaxStateLimit, R.lim_max, 1), (C.ConstraintMinStateLimit, R.lim_min, -1)):
                if rng.random() < 0.85:
                    seq.append((f'{"max" if sg > 0 else "min"}{b}', libpair(cls, fn, sg * float(rng.uniform(0.1, 0.8)), b, (0, float(rng.uniform(0.5, 2))), 0., p if rng.random() < 0.8 else None, {})))
    return OrderedDict(seq[i] for i in rng.permutation(len(seq)))


def run_many(case, obs):
    rng = np.random.default_rng(case['seed'])
    for t in range(case['n']):
        if t % 8 == 0:
            p = float(rng.choice([1e8, 1e9, 1e10]))
            cons = many_cons(case['sys'], rng, p)
            s = user_scn(case['kind'], case['sys'], 0, -50., 50., window=0.2 if case['kind'] == 'iasif' else None, cons=cons)
            mod = obs.call('constructor', s.build)
            names = [k for k, c in s.cons.items() if c.slack is not None]
        x, ud, dt = s.draw(rng) * 0.3, s.draw_u(rng) * float(rng.uniform(0.5, 4)), float(rng.choice(s.dts))
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        q = lib.qp_rows(s, x, dt)
        if q is None or u is None:
            obs.n('ambiguous')
            continue
        if len(names) > 2:
            obs.n('three_or_more_slacks')
        judge(obs, s, q, names, np.asarray(u, float), ud, x, dt, np.sqrt(p), warned, p)


def run_disc(case, obs):
    """discrete module: hard constraints kept, slack free when jointly feasible"""
    rng = np.random.default_rng(case['seed'])
    S = SYS[case['sys']]
    p, W = 1e6, 1e3
    pat = case['pattern']
    slackf = lambda i: p if [i == 0, i == 1, i >= 1, i % 2 == 0][pat] else None  # noqa
    lo, hi = bounds_variants(S.nu, 3.0, rng)
    s = user_scn('dasif', case['sys'], case['cseed'], lo, hi, slackf=slackf)
    n = user_scn('dasif', case['sys'], case['cseed'], lo, hi)
    mod = obs.call('constructor', s.build)
    plain = obs.call('constructor', n.build)
    L, H = np.broadcast_to(np.asarray(lo, float), (S.nu,)), np.broadcast_to(np.asarray(hi, float), (S.nu,))
    for i in range(case['n']):
        x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts))
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud)
        u2, _, warned2 = lib.filter_qp(obs, plain, x, dt, ud)
        un, up = np.asarray(u, float), np.asarray(u2, float)
        det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=un, without_slack=up, slack=[k for k, c in s.cons.items() if c.slack])
        if warned:
            obs.n('solver_failure')
            continue
        vals = dict(zip(s.cons, lib.disc_vals(s, x, dt, un)))
        sc = 1 + max(abs(c.h(x)) / dt for c in s.cons.values())
        hard = min([vals[k] for k, c in s.cons.items() if c.slack is None] + [np.inf])
        if hard < -2e-5 * sc:
            obs.violate(f'{s.name}: constraint without slack violated by {-hard:.4g}', **det)
        if np.any(un < L - 1e-9) or np.any(un > H + 1e-9):
            obs.violate(f'{s.name}: bound violated', **det)
        obs.n('discrete')
        if warned2:
            obs.n('slack_needed')
            obs.judged((s.name, 'needed', tuple(np.round(x, 5))))
            continue
        if case['sys'] == 'full2':
            continue
        obs.n('jointly_feasible')
        cost, cost0 = np.linalg.norm(un - ud), np.linalg.norm(up - ud)
        obs.judged((s.name, 'feasible', tuple(np.round(x, 5))), nontrivial=cost0 > 1e-6)
        if cost0 > 1e-6:
            obs.n('jointly_feasible_modified')
        # penalty bound |s|^2 W/2 <= f(no slack)
        worst = max([0.] + [-vals[k] for k, c in s.cons.items() if c.slack is not None])
        allow = cost0 / np.sqrt(W) + 1e-3 * sc
        if worst > allow:
            obs.violate(f'{s.name}: slack constraint violated by {worst:.4g} although all can hold together', **det)
        if cost > cost0 + 1e-2 * (1 + cost0):
            obs.violate(f'{s.name}: {un} is farther from the desired control than the solution without slack {up}', **det)

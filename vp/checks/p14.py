"""P14 truthful reports"""
import numpy as np
from scipy.optimize import nnls
from vp.core import case_seed
from vp import lib, mods, ref as R
from vp.checks.p06 import make_direct
from vp.checks.p07 import sub_of

RULE = 'distinct (module, state, desired control, reported set) whose intervening flag, reported constraints and info dictionary were judged against the observed control and the reference rows'
ASSUMPTIONS = ['the flag is not judged when the distance to the desired control lies within rounding of epsilon, nor after a solver failure',
               'with linearly dependent or weakly active rows the active set is not unique: the reported names must then name tight rows that generate the correction']
REQUIRE = {'flag_true': 150, 'flag_false': 150, 'near_epsilon': 80, 'active_exact': 150, 'active_none': 80, 'info_stale': 500, 'info_updated': 500, 'multi_active': 40, 'direct_active': 20, 'params_replaced': 200, 'constraint_toggled': 100, 'slack_active': 40}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    N = 100 if tier == 'quick' else 250
    for r in range(k):
        for i, sysn in enumerate(lib.USYS):
            for kind in ('easif', 'iasif', 'dasif'):
                d = dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'p14c', i, r, kind), bounds='var', bmag=1.5, bseed=case_seed(seed, i, r), window=0.4 if kind == 'iasif' else None)
                out.append(dict(spec=d, seed=case_seed(seed, 'p14', i, r, kind), n=N, direct=kind != 'dasif' and i % 2 == r % 2, eps=[None, 0.1, 1e-3, 0.5][(i + r) % 4], sub=kind == 'iasif', w=3))
        for kind in ('easif', 'iasif', 'dasif'):
            for i, z in enumerate(lib.zoo_specs(kind)):
                out.append(dict(spec=z, seed=case_seed(seed, 'p14z', kind, i, r), n=N // 2, eps=[None, 0.1, 1e-3][(i + r) % 3], w=6))
        for i, z in enumerate([s for s in mods.all_specs(seed) if s.get('kind') in ('esimplex', 'isimplex', None)]):
            out.append(dict(spec=z, seed=case_seed(seed, 'p14i', i, r), n=N // 3, info_only=True, w=3))
        for kind in ('easif', 'iasif'):
            for i, sysn in enumerate(['full2', 'full3', 'full4']):
                out.append(dict(slack=True, kind=kind, sys=sysn, seed=case_seed(seed, 'p14s', kind, i, r), n=24 if tier == 'quick' else 80, w=3))
    return out


def run_slack(case, obs):
    """constraints with slack that had to be violated are active: so are at most the other tight rows"""
    from vp.checks.p09 import many_cons
    from vp.sut import user_scn
    rng = np.random.default_rng(case['seed'])
    for t in range(case['n']):
        if t % 8 == 0:
            s = user_scn(case['kind'], case['sys'], 0, -50., 50., window=0.2 if case['kind'] == 'iasif' else None, cons=many_cons(case['sys'], rng, float(rng.choice([1e8, 1e10]))))
            mod = obs.call('constructor', s.build)
        x, ud, dt = s.draw(rng) * 0.3, s.draw_u(rng) * float(rng.uniform(0.5, 4)), float(rng.choice(s.dts))
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        q = lib.qp_rows(s, x, dt)
        if q is None or u is None or warned:
            obs.n('ambiguous')
            continue
        un = np.asarray(u, float)
        rep = mod.constraints_causing_intervention
        nr = np.maximum(np.linalg.norm(q.A, axis=1), 1e-9)
        low = {}
        for n, r in zip(q.names, (q.A @ un - q.b) / nr):
            low[n] = min(low.get(n, np.inf), r)
        must = {k for k, c in s.cons.items() if c.slack is not None and low[k] < -1e-3}
        can = {k for k, v in low.items() if v < 5e-3}
        det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=un, reported=rep, violated=sorted(must), tight=sorted(can))
        if must:
            obs.n('slack_active')
        obs.judged((s.name, 'slack', tuple(np.round(x, 6)), tuple(rep or [])), nontrivial=bool(must))
        if rep is None or not must <= set(rep) <= can:
            obs.violate(f'{s.name}: reported {rep}; relaxed and hence active: {sorted(must)}, tight at most: {sorted(can)}', **det)


def check_info(obs, m, mod, ud, u, phis, stale, enabled, flag, det):
    """phis: None (not a constraint-based module) or dict name -> (value, tolerance)"""
    info = obs.call('generate_info', mod.generate_info)
    def bad(w):
        obs.violate(f'{m.name}: info {w}', info=info, **det)
    if bool(info.get('enable')) != enabled or 'enable' not in info:
        bad('enable flag')
    if 'intervening' not in info or bool(info['intervening']) != bool(flag):
        bad(f'intervening flag {info.get("intervening")} (module says {flag})')
    for k, v in (('control_desired', ud), ('control_actual', u)):
        if v is not None and not lib.same(info.get(k), v, 1e-6):
            bad(f'{k} {info.get(k)} instead of {v}')
    if phis is None:
        return
    key, other = ('constraints_at_last_state', 'constraints') if stale else ('constraints', 'constraints_at_last_state')
    if key not in info or other in info:
        bad(f'has keys {sorted(info)} but the values are {"those of the last filtered state" if stale else "updated"}')
        return
    if set(info[key]) != set(phis):
        bad(f'names {sorted(info[key])} instead of {sorted(phis)}')
        return
    for k, (v, t) in phis.items():
        if v is None or np.isnan(v):
            continue
        if not abs(float(info[key][k]) - v) <= t:
            bad(f'value of {k}: {info[key][k]} instead of {v}')
    obs.n('info_stale' if stale else 'info_updated')


PT = 2e-8


def phis_of(s, x):
    out = {}
    for k, c in s.cons.items():
        v = c.phi(x)
        # values are computed in float64; the tolerance covers conditioning of distances and angles
        out[k] = (v, PT * (1 + abs(v)) + 1e-9 * float(np.sum(np.abs(x))))
    return out


def run_case(case, obs):
    if case.get('slack'):
        return run_slack(case, obs)
    rng = np.random.default_rng(case['seed'])
    m = mods.gmk(case['spec'])
    s = m.scn
    kw, rf = {}, None
    if case.get('direct'):
        mk, rf = make_direct(rng, s.nu)
        kw['direct'] = mk
    if case.get('eps') is not None:
        kw['epsilon'] = case['eps']
    if case.get('sub'):
        from vp.sut import user_scn
        sp = case['spec']
        lo, hi = s.lo, s.hi
        subs = [sub_of(rng) for _ in range(6)]
        s = user_scn('iasif', sp['sys'], sp['cseed'], lo, hi, window=sp['window'], subf=lambda i: subs[i % 6])
        m.scn, m.build = s, s.build
    mod = obs.call('constructor', m.build, **kw)
    eps = case.get('eps') or 1e-2
    last, stale = None, True
    base0 = {}
    enabled = True
    kind = m.kind
    for i in range(case['n']):
        x, dt, ud = m.draw(rng), float(rng.choice(m.dts)), m.draw_u(rng)
        if rng.random() < 0.1:
            enabled = not enabled
            mod.enable = enabled
        if s is not None and kind is not None and rng.random() < 0.12:      # a disabled constraint is still reported on
            k = list(s.cons)[int(rng.integers(len(s.cons)))]
            s.cons[k].enabled = not s.cons[k].enabled
            mod.constraints[k].enabled = s.cons[k].enabled
            obs.n('constraint_toggled')
        q = None
        if not case.get('info_only') and kind in ('easif', 'iasif') and rng.random() < 0.4:
            # aim the desired control just around epsilon away from the feasible set
            q = lib.qp_rows(s, x, dt, rf)
            if q is not None:
                p = R.proj(ud, q.A, q.b)
                if p is not None and np.linalg.norm(p - ud) > 1e-6:
                    ud = p + (ud - p) / np.linalg.norm(ud - p) * eps * (1 + rng.choice([-1, 1]) * 10.**rng.uniform(-3, -0.2))
                    obs.n('near_epsilon')
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        flag = mod.intervening
        det = dict(module=m.name, state=x, dt=dt, desired=ud, returned=u, epsilon=eps, flag=flag)
        if raised:
            obs.violate(f'{m.name}: SolverError although solver_exception is off', **det)
            continue
        if enabled:
            last, stale = (x if s is None else phis_of(s, x)), True
        # a disabled call leaves the values of the previous call or update in place
        if s is None:
            check_info(obs, m, mod, ud, u, None, True, enabled, flag, det)
        elif last is not None:
            check_info(obs, m, mod, ud, u, last, stale, enabled, flag, det)
        if s is not None and rng.random() < 0.5:
            y = m.draw(rng)
            if rng.random() < 0.4:      # new parameter dictionaries, in force for the values from now on
                for k, c in s.cons.items():
                    sc = [a for a, b in c.params.items() if np.ndim(b) == 0 and isinstance(b, (int, float))]
                    if sc and rng.random() < 0.6:
                        a = sc[int(rng.integers(len(sc)))]
                        base0.setdefault((k, a), c.params[a])
                        v = base0[k, a] * float(rng.uniform(0.8, 1.2))
                        c.params[a] = v
                        if rng.random() < 0.5:
                            mod.constraints[k].params = dict(mod.constraints[k].params, **{a: v})
                        else:
                            mod.constraints[k].params[a] = v
                        obs.n('params_replaced')
            obs.call('update_constraint_values', mod.update_constraint_values, lib.as_in(rng, y))
            last, stale = phis_of(s, y), False
            check_info(obs, m, mod, ud, u, phis_of(s, y), False, enabled, flag, det)
        if not lib.same(u, mod.control_actual, 1e-12) or bool(mod.intervening) != bool(flag):
            obs.violate(f'{m.name}: reading the report changed the module', **det)
        if case.get('info_only'):
            obs.judged((m.name, i, case['seed']), nontrivial=True)
            continue
        if not enabled:
            obs.judged((m.name, 'disabled', i), nontrivial=False)
            continue
        if warned:
            obs.n('solver_failure')
            continue
        un = np.asarray(u, float)
        dist = float(np.linalg.norm(un - ud))
        obs.judged((m.name, tuple(np.round(x, 6)), tuple(np.round(ud, 6)), tuple(getattr(mod, 'constraints_causing_intervention', None) or [])), nontrivial=dist > 1e-6)
        if abs(dist - eps) > 1e-5 * (1 + eps) + (1e-6 if kind == 'dasif' else 1e-9):
            obs.n('flag_true' if dist > eps else 'flag_false')
            if bool(flag) != (dist > eps):
                obs.violate(f'{m.name}: intervening={flag} but the control moved by {dist:.6g} (epsilon {eps})', **det)
        if kind == 'dasif':
            continue
        rep = mod.constraints_causing_intervention
        det['reported'] = rep
        q = lib.qp_rows(s, x, dt, rf)
        if q is None:
            obs.n('ambiguous')
            continue
        if R.judge_qp(un, ud, q.A, q.b, q.eps + 1e-8 * (1 + np.abs(q.b)))[0] != 'ok':
            obs.n('ambiguous')
            continue
        known = set(q.names) | set(s.cons) | set(rf or {})
        if rep is None or len(set(rep)) != len(rep) or not set(rep) <= known:
            obs.violate(f'{m.name}: reported constraints {rep} are not distinct constraint names', **det)
            continue
        nr = np.linalg.norm(q.A, axis=1)
        sl = (q.A @ un - q.b) / np.maximum(nr, 1e-12)
        tol = 1e-6 * (1 + np.linalg.norm(ud)) + 10 * q.eps / np.maximum(nr, 1e-12)
        tight = (sl < tol) & (nr > 1e-9)
        tn = {q.names[j] for j in np.where(tight)[0]}
        det['tight'] = sorted(tn)
        if not set(rep) <= tn:
            obs.violate(f'{m.name}: reported {rep}, but only {sorted(tn)} are active', **det)
            continue
        move = un - ud
        if dist < 1e-7:
            obs.n('active_none')
            if rep and not tn:
                obs.violate(f'{m.name}: reported {rep} although the desired control was kept', **det)
            continue
        idx = [j for j in np.where(tight)[0] if q.names[j] in rep]
        M = (q.A[idx] / nr[idx, None]).T if idx else np.zeros((s.nu, 1))
        lam, res = nnls(M, move)
        if res > 1e-4 * dist + 1e-6:
            obs.violate(f'{m.name}: the correction {move} is not caused by the reported {rep} (active: {sorted(tn)})', **det)
            continue
        T = np.where(tight)[0]
        MT = (q.A[T] / nr[T, None])
        sv = np.linalg.svd(MT, compute_uv=False) if len(T) else np.zeros(0)
        if len(T) <= s.nu and len(T) and sv[-1] > 1e-3:
            lt = np.linalg.lstsq(MT.T, move, rcond=None)[0]
            if np.all(lt > 1e-5 + 1e-4 * dist):
                obs.n('active_exact')
                if len(T) > 1:
                    obs.n('multi_active')
                if set(rep) & set(rf or {}):
                    obs.n('direct_active')
                if set(rep) != tn:
                    obs.violate(f'{m.name}: reported {rep}, active are {sorted(tn)}', **det)
                obs.sample(**det)
                continue
        obs.n('active_degenerate')

"""P13 compilation settings never change the result"""
import numpy as np
import jax
from vp.core import case_seed
from vp import lib, mods, ref as R

RULE = 'distinct (module, compilation setting, call) whose control, flag and constraint values were compared with the default-setting twin driven by the same calls'
ASSUMPTIONS = ['settings that ask jax to trace the simulator library (pred_state/integrate with numpy integrators) are unsupported and not used; with jax predictions they are',
               'calls whose decision lies within rounding of a boundary (per the reference) are not compared']
REQUIRE = {'compared': 700, 'interventions': 70, 'step_changes': 100, 'settings': 70, 'global_disable_jit': 50}

COMMON = [dict(jit_enable=False)]
SETS = {
    'esimplex': [{'constraint_violation': False}],
    'isimplex': [{'constraint_violation': False}],
    'easif': [{'generate_barrier_constraint_mats': False}, {'update_ineq_mats': False}, {'generate_barrier_constraint_mats': False, 'update_ineq_mats': False}],
    'iasif': [{'generate_ineq_constraint_mats': False}, {'jacobian': False}, {'update_ineq_mats': False}, {'generate_ineq_constraint_mats': False, 'jacobian': False, 'update_ineq_mats': False}],
    'dasif': [],
}
JAXPRED = {'esimplex': [{'pred_state': True}, {'pred_state': True, 'constraint_violation': False}], 'isimplex': [{'pred_state': True}, {'integrate': True}, {'pred_state': True, 'integrate': True, 'constraint_violation': False}],
           'iasif': [{'pred_state': True}, {'integrate': True}, {'generate_barrier_constraint_mats': True}, {'pred_state': True, 'integrate': True, 'generate_barrier_constraint_mats': True}]}


def cases(tier, seed):
    out = []
    n = 10 if tier == 'quick' else 50
    for r in range(1 if tier == 'quick' else 4):
        for kind in ('esimplex', 'isimplex', 'easif', 'iasif', 'dasif'):
            for i, sysn in enumerate(lib.USYS):
                d = dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'p13c', kind, i, r), bounds='var', bmag=1.5, bseed=case_seed(seed, kind, i), window=0.4 if kind[0] == 'i' else None)
                out.append(dict(spec=d, seed=case_seed(seed, 'p13', kind, i, r), n=n, jaxpred=True, w=5 if kind[0] == 'i' else 3))
            for i, z in enumerate(lib.zoo_specs(kind)):
                heavy = z['fam'].startswith('insp')
                out.append(dict(spec=z, seed=case_seed(seed, 'p13z', kind, i, r), n=n if not heavy else n // 2, jaxpred=False, w=9 if heavy else 4))
        for i, z in enumerate([dict(fam='combined', nd=2), dict(fam='ucascade', sys='di2', subs=[dict(kind='easif', cseed=1, bounds=[-1, 1]), dict(kind='esimplex', cseed=2, bounds=[-2, 2])])]):
            out.append(dict(spec=z, seed=case_seed(seed, 'p13m', i, r), n=n, jaxpred=False, w=6))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    m = mods.gmk(case['spec'])
    kind = m.kind
    kw = {}
    subs = None
    if kind == 'iasif' and case['jaxpred']:
        kw['jaxpred'] = True
    sets = [dict(s) for s in COMMON] + [dict(jit_compile_dict=dict(d)) for d in SETS.get(kind, [])]
    if case['jaxpred']:
        sets += [dict(jit_compile_dict=dict(d)) for d in JAXPRED.get(kind, [])]
    base = obs.call('constructor', m.build, **kw)
    alt = []
    for st in sets:
        # the caller's dictionary must be usable; some are shared by two modules
        alt.append((str(st), obs.call(f'constructor {st}', m.build, **kw, **st)))
        obs.n('settings')
    with jax.disable_jit():
        dj = obs.call('constructor disable_jit', m.build, **kw)
    latch = 0
    last_dt = None
    dts = list(m.dts) + ([0.0712345] if case['jaxpred'] else [])
    s = m.scn
    eps = getattr(base, 'epsilon', None)
    for i in range(case['n']):
        x, dt, ud = m.draw(rng), float(rng.choice(dts)), m.draw_u(rng)
        if i and i % 3 == 0 and rng.random() < 0.6:
            # the state of the call before, which the globally uncompiled module has not seen, with another step size
            x, other = np.array(last_x), [d for d in dts if d != last_dt]
            dt = float(rng.choice(other)) if other else dt
            obs.n('same_state_other_step')
        last_x = np.array(x)
        if last_dt is not None and dt != last_dt:
            obs.n('step_changes')
        last_dt = dt
        if s is not None and rng.random() < 0.2:
            k = list(s.cons)[int(rng.integers(len(s.cons)))]
            s.cons[k].enabled = not s.cons[k].enabled
            for mod in [base, dj] + [a for _, a in alt]:
                mod.constraints[k].enabled = s.cons[k].enabled
        if s is not None and kind != 'dasif' and s.zoo is False and rng.random() < (0.6 if 'simplex' in kind else 0.3):
            t = (lib.tune_simplex if 'simplex' in kind else lambda s_, m_, r_, x_, *_: lib.tune_qp(s_, m_, r_, x_))(s, base, rng, x, dt, ud)
            if t:
                for mod in [dj] + [a for _, a in alt]:
                    mod.constraints[t].params.update({k: float(v) for k, v in s.cons[t].params.items() if np.isscalar(v)})
        skip = False
        if s is not None and 'simplex' in kind:
            skip = lib.simplex_decide(s, x, dt, ud, 1e-9)[0] is None
        if s is not None and kind in ('easif', 'iasif'):
            q = lib.qp_rows(s, x, dt)
            skip = q is None or R.judge_qp(ud, ud, q.A, q.b, q.eps + 1e-8 * (1 + np.abs(q.b)))[0] == 'ambiguous'
        u0, r0, w0 = lib.filter_qp(obs, base, x, dt, ud)
        u0 = np.asarray(u0, float)
        if base.intervening:
            obs.n('interventions')
        for name, mod in alt + [('global disable_jit', dj)]:
            if name == 'global disable_jit':
                if i % 3:
                    continue
                with jax.disable_jit():
                    u1, r1, w1 = lib.filter_qp(obs, mod, x, dt, ud)
                obs.n('global_disable_jit')
            else:
                u1, r1, w1 = lib.filter_qp(obs, mod, x, dt, ud)
            if skip:
                obs.n('ambiguous')
                continue
            obs.n('compared')
            obs.judged((m.name, name, i, case['seed']), nontrivial=True)
            u1 = np.asarray(u1, float)
            det = dict(module=m.name, setting=name, state=x, dt=dt, desired=ud, default=u0, other=u1, flags=[base.intervening, mod.intervening], warned=[w0, w1])
            tol = 1e-4 if kind == 'dasif' or (kind == 'cascade') else 1e-6
            if bool(w0) != bool(w1):
                if kind == 'dasif':
                    obs.n('solver_failure')
                    continue
                obs.violate(f'{m.name}: {name}: solver failure reported by one setting only', **det)
                continue
            if kind == 'dasif' and w0:
                continue
            if not lib.same(u1, u0, tol):
                obs.violate(f'{m.name}: {name} returns {u1}, default settings {u0}', **det)
            near = eps is not None and abs(np.linalg.norm(u0 - ud) - eps) < 1e-5
            if not near and bool(mod.intervening) != bool(base.intervening):
                obs.violate(f'{m.name}: {name} reports intervening={mod.intervening}, default settings {base.intervening}', **det)
            v0, v1 = getattr(base, 'constraint_values', {}), getattr(mod, 'constraint_values', {})
            if set(v0) != set(v1) or any(not (abs(v0[k] - v1[k]) <= 1e-8 * (1 + abs(v0[k]))) and not np.isnan(v0[k]) for k in v0):
                obs.violate(f'{m.name}: {name} reports constraint values {v1}, default settings {v0}', **det)
            if i == 1:
                obs.sample(**det)
        if kind in ('esimplex', 'isimplex') and skip:
            for mod in [base, dj] + [a for _, a in alt]:
                mod.reset()

"""P10 unsolvable optimisation is reported"""
import numpy as np
from collections import OrderedDict
from vp.core import case_seed
from vp import lib, ref as R
from vp.checks.p06 import DIC
from vp.checks.p06 import make_direct

RULE = 'distinct (module, solver_exception, state, desired control) for which the reference proved the problem infeasible (or feasible) and the module reported (or not)'
ASSUMPTIONS = ['problems whose feasibility changes within the rounding allowance of the rows are not judged', 'for the discrete module (local nonlinear solver) only convex problems with desired controls of the order of the bounds are judged as solvable']
REQUIRE = {'infeasible_warned': 150, 'infeasible_raised': 150, 'feasible_quiet': 300, 'feasible_after_failure': 80, 'discrete_infeasible': 12, 'discrete_feasible': 100, 'desired_outside_when_infeasible': 30, 'infeasible_narrow_gap': 60, 'feasible_narrow_gap': 40}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 5
    N = 70 if tier == 'quick' else 250
    for r in range(k):
        for exc in (False, True):
            for i, sysn in enumerate(lib.USYS):
                for kind in ('easif', 'iasif'):
                    out.append(dict(spec=dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'p10c', i, r, kind), bounds='var', bmag=0.5 if (i + exc) % 2 else 1.0, bseed=case_seed(seed, i, r), window=0.4 if kind == 'iasif' else None),
                                    exc=exc, seed=case_seed(seed, 'p10', i, r, exc, kind), n=N, direct=bool((i + exc) % 3 == 0), w=2))
            for i, sysn in enumerate(['di1', 'di2', 'full2', 'pend']):      # two direct inequalities that miss each other narrowly, or just meet
                out.append(dict(spec=dict(fam='user', kind=['easif', 'iasif'][(i + exc) % 2], sys=sysn, cseed=case_seed(seed, 'p10gc', i, r), bounds=[-4., 4.], window=0.3 if (i + exc) % 2 else None),
                                exc=exc, gap=True, seed=case_seed(seed, 'p10g', i, r, exc), n=N, w=2))
            for i, z in enumerate([dict(fam='integrator', kind='easif'), dict(fam='integrator', kind='iasif'), dict(fam='docking2', kind='easif'), dict(fam='docking3', kind='easif'), dict(fam='docking2', kind='iasif'),
                                   dict(fam='insp1', kind='easif'), dict(fam='inspn2', kind='easif')]):
                out.append(dict(spec=z, exc=exc, seed=case_seed(seed, 'p10z', i, r, exc), n=N, direct=False, w=6))
            for i, sysn in enumerate(['di1', 'pend', 'di2']):
                out.append(dict(spec=dict(fam='user', kind='dasif', sys=sysn, cseed=case_seed(seed, 'p10d', i, r), bounds='var', bmag=1., bseed=case_seed(seed, i, r)), exc=exc, seed=case_seed(seed, 'p10dd', i, r, exc), n=50 if tier == 'quick' else 200, w=4))
    return out


def make_gap(rng, nu):
    q = rng.normal(size=nu)
    q /= np.linalg.norm(q)
    mk, rf = OrderedDict(), OrderedDict()
    for i, sg in enumerate((1., -1.)):
        w = lambda xp, x, p, sg=sg: sg * xp.array(q)  # noqa
        c = lambda xp, x, p, sg=sg: sg * p['k'] + (p['gap'] if sg < 0 else 0.)  # noqa
        p0 = {'k': 0., 'gap': -1.}
        mk[f'direct{i}'] = (lambda w=w, c=c: DIC(w, c, params=dict(p0)))
        rf[f'direct{i}'] = dict(w=lambda x, p, w=w: np.asarray(w(np, x, p)), c=lambda x, p, c=c: float(c(np, x, p)), params=dict(p0), enabled=True)
    return mk, rf


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    kw, rf = {}, None
    if case.get('direct'):
        mk, rf = make_direct(rng, s.nu, 2)
        kw['direct'] = mk
    if case.get('gap'):
        mk, rf = make_gap(rng, s.nu)
        kw['direct'] = mk
    mod = obs.call('constructor', s.build, solver_exception=case['exc'], **kw)
    L, H = np.broadcast_to(np.asarray(s.lo, float), (s.nu,)), np.broadcast_to(np.asarray(s.hi, float), (s.nu,))
    failed_before = False
    for i in range(case['n']):
        x, dt = s.draw(rng), float(rng.choice(s.dts))
        ud = s.draw_u(rng) * float(rng.choice([1, 1, 3]))
        gap = None
        if case.get('gap'):
            gap = float(rng.choice([1, 1, -1]) * 10.**rng.uniform(-7.5, -2))
            k = float(rng.uniform(-0.3, 0.3))
            for c in ('direct0', 'direct1'):
                rf[c]['params'].update(k=k, gap=gap)
                mod.direct_inequality_constraints[c].params.update(k=k, gap=gap)
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        det = dict(scenario=s.name, solver_exception=case['exc'], state=x, dt=dt, desired=ud, returned=u, raised=raised, warnings=warned)
        if raised and not case['exc']:
            obs.violate(f'{s.name}: SolverError although solver_exception is off', **det)
            continue
        if sp['kind'] == 'dasif':
            feas = scan(s, x, dt, L, H)
            if feas is None or (feas and np.max(np.abs(ud)) > 4):
                obs.n('ambiguous')
                continue
            obs.judged((s.name, case['exc'], tuple(np.round(x, 5)), tuple(np.round(ud, 5))), nontrivial=not feas)
            if feas:
                obs.n('discrete_feasible')
                if raised or warned:
                    obs.violate(f'{s.name}: solver failure reported although a solution exists', **det)
            else:
                obs.n('discrete_infeasible')
                if case['exc'] and not raised or not case['exc'] and not warned:
                    obs.violate(f'{s.name}: no control satisfies the constraints but nothing was reported', **det)
            continue
        q = lib.qp_rows(s, x, dt, rf)
        if q is None:
            obs.n('ambiguous')
            continue
        un = ud if u is None else np.asarray(u, float)
        v, info = R.judge_qp(un, ud, q.A, q.b, q.eps + 1e-8 * (1 + np.abs(q.b)))
        if v == 'ambiguous':
            obs.n('ambiguous')
            continue
        obs.judged((s.name, case['exc'], tuple(np.round(x, 5)), tuple(np.round(ud, 5))), nontrivial=v == 'infeasible' or failed_before)
        if gap is not None and (v == 'infeasible') == (gap > 0):
            obs.n('infeasible_narrow_gap' if gap > 0 else 'feasible_narrow_gap')
        if v == 'infeasible':
            failed_before = True
            obs.sample(**det)
            if case['exc']:
                obs.n('infeasible_raised')
                if not raised:
                    obs.violate(f'{s.name}: no solution exists, solver_exception is on, but {u} was returned', **det)
                continue
            obs.n('infeasible_warned')
            want = R.clip(ud, s.lo, s.hi)
            if np.any(want != ud):
                obs.n('desired_outside_when_infeasible')
            if not warned:
                obs.violate(f'{s.name}: no solution exists but no warning was issued (returned {un})', **det)
            if not lib.same(un, want, 1e-9):
                obs.violate(f'{s.name}: no solution exists; returned {un} instead of the bounded desired control {want}', **det)
        else:
            obs.n('feasible_quiet')
            if failed_before:
                obs.n('feasible_after_failure')
            if raised or warned:
                obs.violate(f'{s.name}: solver failure reported although {info["ref"]} is feasible', **det)
            elif v.startswith('bad'):
                obs.violate(f'{s.name}: {v[4:]} (call {i}, after an earlier failure: {failed_before}): {un} vs {info["ref"]}', **det)


def scan(s, x, dt, L, H):
    """True / False / None by exhaustive grid"""
    if s.nu == 1:
        g = np.linspace(L[0], H[0], 300)[:, None]
    else:
        g = np.stack(np.meshgrid(np.linspace(L[0], H[0], 30), np.linspace(L[1], H[1], 30)), -1).reshape(-1, 2)
    best = max(lib.disc_vals(s, x, dt, z).min() for z in g)
    return True if best > 1e-2 else False if best < -0.15 else None

"""P08 discrete ASIF"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R

RULE = 'distinct (module, state, step, desired control) whose returned control was judged against the discrete barrier and the reference nonlinear solver; unchanged controls are not counted'
ASSUMPTIONS = ['the optimiser is a local one: for non-convex sets the returned control is compared with the reference local optimum reached from the same start, and only feasibility is judged where they disagree',
               'a solver failure (reported by warning) on a problem the reference can solve is counted, not judged; it is judged by P10 for the quadratic-program modules']
REQUIRE = {'modified': 250, 'unchanged': 150, 'element_bound_active': 20, 'integrator_module_modified': 20}
CONVEX = {'di1', 'di2', 'pend'}


def cases(tier, seed):
    out = []
    k = 2 if tier == 'quick' else 8
    n = 70 if tier == 'quick' else 250
    for i, sysn in enumerate(lib.USYS):
        for j in range(k):
            d = dict(fam='user', kind='dasif', sys=sysn, cseed=case_seed(seed, 'c8', sysn, j), bounds=['var', None, [-2, 2], 'var'][j % 4], bmag=2., bseed=case_seed(seed, 'b8', i, j), umag=1.)
            out.append(dict(spec=d, seed=case_seed(seed, 'p08', i, j), n=n, w=3, jit=j % 2 == 0))
    for j, sysn in enumerate(['pend', 'full2', 'di1'][:2 if tier == 'quick' else 3]):
        d = dict(fam='user', kind='dasif_int', sys=sysn, cseed=case_seed(seed, 'c8i', j), bounds='var', bmag=2., bseed=j)
        out.append(dict(spec=d, seed=case_seed(seed, 'p08i', j), n=45 if tier == 'quick' else 150, w=8, jit=True))
    for j in range(3 if tier == 'quick' else 8):
        d = dict(fam='insp1', kind='dasif')
        if j:
            d.update(bounds='var', bseed=case_seed(seed, 'b8z', j), bmag=[1., 1., .5, 2.][j % 4])
        out.append(dict(spec=d, seed=case_seed(seed, 'p08z', j), n=60 if tier == 'quick' else 220, w=8, jit=True))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    integ = sp['kind'] == 'dasif_int'
    if integ:
        s.kind = 'dasif'
        s.pred = lambda x, dt, u: R.ode_step(lambda y: s.f(y) + s.g(y) @ u, x, dt)
    mod = obs.call('constructor', s.build, jit_enable=case['jit'])
    convex = sp['fam'] != 'user' or sp['sys'] in CONVEX
    ftol = 2e-5 if integ else 2e-6
    base = {k: dict(c.params) for k, c in s.cons.items()}
    lo = np.broadcast_to(-np.inf if s.lo is None else np.asarray(s.lo, float), (s.nu,))
    hi = np.broadcast_to(np.inf if s.hi is None else np.asarray(s.hi, float), (s.nu,))
    for i in range(case['n']):
        x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts))
        if sp['fam'] == 'user' and not integ and rng.random() < 0.2:
            dt = float(10.**rng.uniform(-2.3, -1.4))
            obs.n('small_step')
        if sp['fam'] == 'user' and rng.random() < 0.3:
            lib.tune_qp(s, mod, rng, x)
        if rng.random() < 0.15:
            ud = R.clip(ud, s.lo, s.hi)
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        obs.n('calls')
        un = np.asarray(u, float)
        det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=u, params={k: c.params for k, c in s.cons.items()}, bounds=[s.lo, s.hi])
        if un.shape != (s.nu,) or not np.all(np.isfinite(un)):
            obs.violate(f'{s.name}: malformed control {u}', **det)
            continue
        scale = 1 + max([abs(c.alpha(c.h(x))) + abs(c.h(x)) / dt for c in s.cons.values()])
        tol = ftol * scale
        v = lib.disc_vals(s, x, dt, un)
        vd = lib.disc_vals(s, x, dt, ud)
        inb = bool(np.all(ud >= lo) and np.all(ud <= hi))
        det.update(barrier=v, barrier_desired=vd)
        if warned:
            obs.n('solver_failure')
        elif v.min() < -tol:
            # a solution exists? if the reference cannot find one the solver's claim of success is P10's business
            obs.violate(f'{s.name}: returned {un} with barrier residual {v.min():.4g}', **det)
        if inb and vd.min() > tol:
            obs.n('unchanged')
            obs.judged()
            if np.linalg.norm(un - ud) > 1e-5 * (1 + np.linalg.norm(ud)):
                obs.violate(f'{s.name}: desired control {ud} already satisfies everything (margin {vd.min():.4g}) but {un} was returned', **det)
            if warned:
                obs.violate(f'{s.name}: solver failure although the desired control is feasible', **det)
        elif not warned:
            ref = lib.disc_ref(s, x, dt, ud, [ud] if integ else [ud, un])
            if ref is None:
                obs.n('reference_unsolved')
            else:
                cost = float(np.linalg.norm(un - ud))
                ok = cost <= ref[1] + 2e-4 * (1 + ref[1])
                if ok or convex:
                    obs.n('modified')
                    if integ:
                        obs.n('integrator_module_modified')
                    if np.any((np.abs(un - lo) < 1e-9) | (np.abs(un - hi) < 1e-9)) and np.ptp(np.r_[np.abs(lo), np.abs(hi)][np.isfinite(np.r_[lo, hi])]) > 1e-3:
                        obs.n('element_bound_active')
                    obs.judged((s.name, tuple(np.round(x, 6)), dt, tuple(np.round(ud, 6))))
                    obs.sample(**det, reference=ref[0])
                    if not ok:
                        obs.violate(f'{s.name}: {un} at distance {cost:.6g}, but {ref[0]} at distance {ref[1]:.6g} also satisfies every barrier', **det)
                else:
                    obs.n('nonconvex_gap')
        for k_, p in base.items():
            s.cons[k_].params.update(p)
            mod.constraints[k_].params.update(p)

"""Monitors shared by several checks: one monitored filter call judged against the reference description."""
import warnings
import numpy as np
from vp import ref as R
from vp.sut import (Scn, integrator_scn, docking_scn, insp1v1_scn, inspn_scn, user_scn, bounds_variants, C, SYS, SolverError, jnp)
from vp.core import Stop

TUNE = {'brake': ('c', 1.), 'wall': ('c', 1.), 'plane': ('c', 1.), 'rel_vel': ('v0', 1.), 'vymax': ('limit_val', 1.), 'vymin': ('limit_val', -1.)}


def mk(spec):
    """scenario from a JSON descriptor"""
    fam, kind, over = spec['fam'], spec['kind'], dict(spec.get('over', {}))
    rng = np.random.default_rng(spec.get('bseed', 0))
    nu = {'integrator': 1, 'docking2': 2, 'docking3': 3, 'insp1': 3}.get(fam, None)
    if fam.startswith('insp') and fam != 'insp1':
        nu = 3
    if fam == 'user':
        nu = SYS[spec['sys']].nu
    lo = hi = None
    if spec.get('bounds') == 'var':
        lo, hi = bounds_variants(nu, spec.get('bmag', 1.0), rng)
        if spec.get('barr') == 'jnp' and not np.isscalar(lo):
            lo = jnp.array(lo)
            hi = jnp.array(hi)
    elif isinstance(spec.get('bounds'), list):
        lo, hi = spec['bounds']
    if fam == 'user':
        return user_scn(kind, spec['sys'], spec.get('cseed', 0), lo, hi, window=spec.get('window'), method=spec.get('method', 'Euler'), umag=spec.get('umag', 1.0), units=spec.get('units'), late=spec.get('late', False), **over)
    if spec.get('bounds') is not None:
        over['control_bounds_low'], over['control_bounds_high'] = lo, hi
    if spec.get('window') is not None:
        over['backup_window'] = spec['window']
    if fam == 'integrator':
        return integrator_scn(kind, **over)
    if fam in ('docking2', 'docking3'):
        return docking_scn(int(fam[-1]), kind, **over)
    if fam == 'insp1':
        return insp1v1_scn(kind, **over)
    if fam.startswith('inspn'):
        return inspn_scn(int(fam[5:]), **over)
    raise KeyError(fam)


def relerr(x64, method):
    if not x64:
        return 2e-6
    return 1e-12 if method == 'Euler' else 1e-7


def htol(c, x, rel):
    g = c.grad(x)
    v = c.h(x)
    return rel * (1 + np.sum(np.abs(g) * np.abs(x)) + abs(v) + sum(abs(float(p)) for p in c.params.values() if np.isscalar(p))) + 1e-13


def n_steps(window, dt):
    return int(window / dt + 1e-9)


def simplex_traj(s, x, dt, ud):
    """states on which the decision depends"""
    if getattr(s, 'simplex_traj_fn', None) is not None:
        return s.simplex_traj_fn(x, dt, ud)
    x = s.pred(np.asarray(x, float), dt, np.asarray(ud, float))
    out = [x]
    if s.kind == 'isimplex':
        for _ in range(n_steps(s.window, dt)):
            x = s.pred(x, dt, s.bk(x))
            out.append(x)
    return out


def simplex_decide(s, x, dt, ud, rel):
    """(verdict True/False/None, list of (name, index) violated, min margin)"""
    traj = simplex_traj(s, x, dt, ud)
    bad, amb, mn = [], False, np.inf
    for k, c in s.cons.items():
        if not c.enabled:
            continue
        for j, y in enumerate(traj):
            h = c.h(y)
            mn = min(mn, h)
            t = htol(c, y, rel * (1 + j))
            if h < -t:
                bad.append((k, j))
            elif h < t:
                amb = True
    if bad:
        return True, bad, mn, len(traj)
    return (None if amb else False), bad, mn, len(traj)


def tune_simplex(s, mod, rng, x, dt, ud, fine=False):
    """move one run-time parameter so that the worst predicted point lies a small distance on either side of the boundary"""
    ks = [k for k in s.cons if k in TUNE and s.cons[k].enabled and TUNE[k][0] in s.cons[k].params]
    if not ks:
        return None
    k = ks[int(rng.integers(len(ks)))]
    name, sg = TUNE[k]
    hm = min(s.cons[k].h(y) for y in simplex_traj(s, x, dt, ud))
    delta = rng.choice([-1, 1]) * 10.**rng.uniform(-10 if fine else -5, -1.5)
    val = float(s.cons[k].params[name] + sg * (delta - hm))
    s.cons[k].params[name] = val
    mod.constraints[k].params[name] = val
    return k


def same(u, v, tol):
    u, v = np.asarray(u, float), np.asarray(v, float)
    return u.shape == v.shape and bool(np.all(np.isfinite(u))) and bool(np.all(np.abs(u - v) <= tol * (1 + np.abs(v))))


def as_in(rng, a, x64=True):
    """vary the container the caller uses"""
    t = rng.integers(0, 3)
    if t == 0:
        return jnp.array(a)
    return buf(a) if t == 1 else np.array(a)


def dt_in(rng, dt):
    """a step size may be a python or numpy number, an integer when whole"""
    t = rng.integers(0, 6)
    return int(dt) if t == 0 and float(dt).is_integer() else np.float64(dt) if t == 1 else dt


def u_in(rng, ud):
    """a fresh array, or the buffer the primary controller keeps reusing; whole numbers may come as integers"""
    ud = np.asarray(ud, float)
    if np.all(ud == np.round(ud)) and np.all(np.abs(ud) < 1e6) and rng.integers(0, 2):
        return np.array(ud, dtype=int)
    return np.array(ud) if rng.integers(0, 4) else buf(ud, 'u')


_BUF = {}


def buf(a, tag='x'):
    """the one array a simulator keeps updating in place"""
    a = np.asarray(a, float)
    b = _BUF.setdefault((tag, a.shape), np.zeros(a.shape))
    b[...] = a
    return b


def check_simplex(obs, s, mod, x, dt, ud, rel, utol, rng=None, tag=''):
    """one call of an unlatched simplex module"""
    xin = np.array(x) if rng is None else as_in(rng, x)
    u = obs.call('filter_control', mod.filter_control, xin, dt if rng is None else dt_in(rng, dt), np.array(ud) if rng is None else u_in(rng, ud))
    dec, bad, mn, L = simplex_decide(s, x, dt, ud, rel)
    obs.n('calls')
    if dec is None:
        obs.n('ambiguous')
        return u, dec
    want = s.bk(x) if dec else R.clip(ud, s.lo, s.hi)
    kind = 'switch' if dec else 'pass'
    obs.n(kind)
    if dec:
        pts = {j for _, j in bad}
        if pts == {0}:
            obs.n('violation_only_first_point')
        elif pts == {L - 1}:
            obs.n('violation_only_last_point')
        elif 0 not in pts:
            obs.n('violation_only_on_backup_trajectory')
        if abs(mn) < 1e-2:
            obs.n('switch_near_boundary')
        if abs(mn) < 1e-6:
            obs.n('switch_very_near')
    elif mn < 1e-2:
        obs.n('pass_near_boundary')
        if mn < 1e-6:
            obs.n('pass_very_near')
    obs.judged((s.name, tag, kind, tuple(np.round(x, 6)), dt, tuple(np.round(ud, 6))), nontrivial=dec or mn < 1)
    obs.sample(scenario=s.name, state=x, dt=dt, desired=ud, decision=kind, margin=mn, returned=u)
    det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=u, expected=want, intervening=mod.intervening, decision=kind, violated=bad[:5], margin=mn,
               params={k: c.params for k, c in s.cons.items()}, bounds=[s.lo, s.hi])
    if not same(u, want, utol):
        obs.violate(f'{s.name}: simplex should {kind} (margin {mn:.3g}) but returned {np.asarray(u)} instead of {want}', **det)
    if bool(mod.intervening) != dec:
        obs.violate(f'{s.name}: intervening={mod.intervening} but the monitor decision is {dec}', **det)
    return u, dec


# ---------------------------------------------------------------- QP modules
def sub_select(vals, sub, N, tol):
    """documented sub-sampling of trajectory points; returns list of indices or None when tied"""
    nca, skip = sub.get('num_check_all', -1), sub.get('skip_length', 1)
    pts = list(range(0, min(max(nca, 0), N))) + list(range(max(nca, 0), N, skip))
    nl = sub.get('subsample_constraints_num_least')
    if nl is not None and nl < len(pts):
        o = sorted(pts, key=lambda j: vals[j])
        if nl > 0 and vals[o[nl]] - vals[o[nl - 1]] <= tol:
            return None
        pts = o[:nl]
    if sub.get('keep_first'):
        pts = pts + [0]
    if sub.get('keep_last'):
        pts = pts + [N - 1]
    return sorted(set(pts))


def backup_traj(s, x, dt):
    if getattr(s, 'backup_traj_fn', None) is not None:
        return s.backup_traj_fn(x, dt)
    N = n_steps(s.window, dt) + 1
    x = np.asarray(x, float)
    S = np.eye(x.size)
    traj, sens = [x], [S]
    for _ in range(1, N):
        x = s.pred(x, dt, s.bk(x))
        S = S + (s.jacb(x) @ S) * dt
        traj.append(x)
        sens.append(S)
    return traj, sens


def implicit_rows(s, x, dt):
    traj, sens = backup_traj(s, x, dt)
    N = len(traj)
    A, b, e, names = [], [], [], []
    fx, gx = s.f(x), s.g(x)
    picked = {}
    for k, c in s.cons.items():
        if not c.enabled:
            continue
        vals = [c.h(y) for y in traj]
        idx = sub_select(vals, c.sub, N, 1e-7 * (1 + max(map(abs, vals))))
        if idx is None:
            return None
        picked[k] = idx
        for j in idx:
            gr = c.grad(traj[j]) @ sens[j]
            al = c.alpha(vals[j])
            A.append(gr @ gx)
            b.append(-(gr @ fx) - al)
            e.append((1 + j) * (np.sum(np.abs(gr) * np.abs(fx)) + abs(al) + np.sum(np.abs(A[-1])) + abs(vals[j])))
            names.append(k)
    return np.array(A).reshape(-1, s.nu), np.array(b), np.array(e), names, picked, N


class QPRows:
    pass


def qp_rows(s, x, dt, direct=None, rel=1e-9, htol_=1e-9):
    """full row set (bounds, barriers, direct inequalities); None when the reference itself is ambiguous"""
    q = QPRows()
    if s.kind == 'easif':
        for c in s.cons.values():
            if c.enabled and abs(c.h(x)) <= htol_ * (1 + abs(c.h(x))) + htol(c, x, rel):
                return None
        A, b, e, names = s.explicit_rows(x)
        q.picked, q.N = None, 1
    else:
        r = implicit_rows(s, x, dt)
        if r is None:
            return None
        A, b, e, names, q.picked, q.N = r
    q.barrier = len(names)
    Ab, bb = R.bound_rows(s.nu, s.lo, s.hi)
    bn = []
    if s.lo is not None:
        bn += [f'u{i + 1}_min' for i in range(s.nu)]
    if s.hi is not None:
        bn += [f'u{i + 1}_max' for i in range(s.nu)]
    dA, db, dn = [], [], []
    for k, d in (direct or {}).items():
        if d['enabled']:
            dA.append(d['w'](x, d['params']))
            db.append(d['c'](x, d['params']))
            dn.append(k)
    q.A = np.vstack([Ab, A.reshape(-1, s.nu), np.array(dA).reshape(-1, s.nu)])
    q.b = np.concatenate([bb, b, np.array(db)])
    q.eps = np.concatenate([np.full(len(bb), 1e-9), rel * (1 + e), np.full(len(db), 1e-9)])
    if rel > 1e-8:
        q.eps = np.maximum(q.eps, rel * (1 + np.abs(q.b)))
    q.names = bn + names + dn
    return q


def filter_qp(obs, mod, x, dt, ud, rng=None):
    """(u, raised, warned)"""
    if rng is None:
        return filter_qp_raw(obs, mod, np.array(x), dt, np.array(ud))
    return filter_qp_raw(obs, mod, as_in(rng, x), dt_in(rng, dt), u_in(rng, ud))


def filter_qp_raw(obs, mod, xin, dt, uin):
    x, ud = xin, uin
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        try:
            u = mod.filter_control(xin, dt, uin)
            raised = False
        except SolverError:
            u, raised = None, True
        except Stop:
            raise
        except Exception as ex:  # noqa
            import traceback
            obs.violations.append({'what': f'filter_control raised {type(ex).__name__}: {str(ex)[:300]}', 'detail': {'traceback': traceback.format_exc().splitlines()[-10:],
                                                                                                                      'state': [float(v) for v in np.asarray(x)], 'dt': dt, 'desired': [float(v) for v in np.asarray(ud)]}})
            raise Stop() from ex
    warned = [str(i.message) for i in w if issubclass(i.category, UserWarning) and 'dtype' not in str(i.message)]
    return u, raised, warned


def check_qp(obs, s, mod, x, dt, ud, direct=None, rel=1e-9, rng=None, tag='', want_infeasible=False, lenient=False):
    """one call of a quadratic-program module, judged for optimality; returns (u, verdict)"""
    u, raised, warned = filter_qp(obs, mod, x, dt, ud, rng)
    obs.n('calls')
    q = qp_rows(s, x, dt, direct, rel)
    if q is None:
        obs.n('ambiguous')
        return u, 'ambiguous', None
    det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=u, params={k: c.params for k, c in s.cons.items()}, bounds=[s.lo, s.hi],
               enabled={k: c.enabled for k, c in s.cons.items()}, rows=dict(zip(q.names[:30], q.A[:30].tolist())), b=q.b, points=q.picked)
    un = np.asarray(u, float) if u is not None else None
    if un is not None and (un.shape != (s.nu,) or not np.all(np.isfinite(un))):
        obs.violate(f'{s.name}: malformed control {u}', **det)
        return u, 'bad', q
    v, info = R.judge_qp(un if un is not None else np.asarray(ud, float), np.asarray(ud, float), q.A, q.b, q.eps, 1e-7 if rel > 1e-8 or s.kind != 'easif' else 3e-9)
    if v in ('infeasible', 'ambiguous'):
        obs.n(v)
        return u, v, q
    if (raised or warned) and lenient:
        obs.n('solver_failure_other_units')
        return u, 'ambiguous', q
    if raised or warned:
        # the solver gave up although the tightened problem has a solution
        obs.violate(f'{s.name}: solver failure reported although {info.get("ref")} is feasible', **det)
        return u, 'bad', q
    moved = float(np.linalg.norm(un - ud))
    tight = [q.names[i] for i in range(len(q.b)) if (q.A @ un - q.b)[i] < 1e-6 * (1 + abs(q.b[i])) + 10 * q.eps[i]]
    obs.n('unchanged' if moved < 1e-6 else 'modified')
    for t in set(tight):
        if not t.startswith('u') or t[1:2].isalpha():
            obs.n('active:' + (s.name.split('.')[0] + ':' + t))
    obs.judged((s.name, tag, tuple(np.round(x, 6)), tuple(np.round(ud, 6)), tuple(sorted(set(tight)))), nontrivial=moved > 1e-6)
    if moved > 1e-6:
        obs.sample(scenario=s.name, state=x, dt=dt, desired=ud, returned=u, active=sorted(set(tight)))
    if v.startswith('bad'):
        det.update(info)
        obs.violate(f'{s.name}: {v[4:]}: returned {un}, reference {info.get("ref")} (row {q.names[info["row"]] if "row" in info else "-"}, cost {info["cost"]:.6g} vs {info["cost_ref"]:.6g})', **det)
    return u, v, q


def near_u(s, x, dt, ud, rng, direct=None, rel=1e-9):
    """a desired control just inside or just outside the admissible set; None when there is no nearby boundary"""
    q = qp_rows(s, x, dt, direct, rel)
    if q is None:
        return None
    u = R.proj(np.asarray(ud, float), q.A, q.b)
    if u is None or np.linalg.norm(u - ud) < 1e-6:
        return None
    d = (ud - u) / np.linalg.norm(ud - u)
    return u + d * float(rng.choice([-1, 1, 1]) * 10.**rng.uniform(-6.5, -3))


def tune_qp(s, mod, rng, x):
    """place a constraint value a small distance from zero at this state"""
    ks = [k for k in s.cons if k in TUNE and s.cons[k].enabled and TUNE[k][0] in s.cons[k].params]
    if not ks:
        return None
    k = ks[int(rng.integers(len(ks)))]
    name, sg = TUNE[k]
    delta = rng.choice([-1, 1]) * 10.**rng.uniform(-4, -0.5)
    val = float(s.cons[k].params[name] + sg * (delta - s.cons[k].h(x)))
    s.cons[k].params[name] = val
    mod.constraints[k].params[name] = val
    return k


# ---------------------------------------------------------------- discrete ASIF
def disc_vals(s, x, dt, u):
    y = s.pred(np.asarray(x, float), dt, np.asarray(u, float))
    return np.array([(c.h(y) - c.h(x)) / dt + c.alpha(c.h(x)) for c in s.cons.values() if c.enabled])


def disc_ref(s, x, dt, ud, starts):
    """best feasible control found by the reference NLP solver from several starts; (u, cost) or None"""
    from scipy.optimize import minimize
    lo = np.broadcast_to(-np.inf if s.lo is None else np.asarray(s.lo, float), (s.nu,))
    hi = np.broadcast_to(np.inf if s.hi is None else np.asarray(s.hi, float), (s.nu,))
    best = None
    for u0 in starts:
        try:
            r = minimize(lambda u: 0.5 * np.sum((u - ud)**2), np.clip(u0, lo, hi), jac=lambda u: u - ud, method='SLSQP', bounds=list(zip(lo, hi)),
                         constraints=[{'type': 'ineq', 'fun': lambda u: disc_vals(s, x, dt, u)}], options={'ftol': 1e-12, 'maxiter': 200})
        except Exception:
            continue
        v = disc_vals(s, x, dt, r.x)
        if np.all(np.isfinite(r.x)) and (v.size == 0 or v.min() > -1e-8):
            c = float(np.linalg.norm(r.x - ud))
            if best is None or c < best[1]:
                best = (r.x, c)
    return best


# ---------------------------------------------------------------- spec lists
USYS = ['di1', 'di2', 'pend', 'full2', 'full3', 'full4']


def zoo_specs(kind):
    out = []
    if kind in ('esimplex', 'isimplex', 'easif', 'iasif'):
        out += [dict(fam='integrator', kind=kind), dict(fam='docking2', kind=kind), dict(fam='docking3', kind=kind)]
    if kind == 'easif':
        out += [dict(fam='insp1', kind=kind), dict(fam='insp1', kind=kind, over={'use_hocbf': True}), dict(fam='inspn2', kind=kind), dict(fam='inspn3', kind=kind)]
    if kind == 'dasif':
        out += [dict(fam='insp1', kind=kind)]
    return out


def method_of(spec):
    if spec['fam'] == 'user':
        return spec.get('method', 'Euler')
    m = spec.get('over', {}).get('integration_method')
    return m or ('Euler' if spec['fam'] == 'integrator' else 'RK45')


def wild_u(rng, s):
    """desired controls a careless primary controller may produce"""
    t = rng.integers(0, 7)
    n = s.nu
    if t == 0:
        return rng.choice([-1., 1.], n) * 10.**rng.uniform(0, 8, n)
    if t == 1:
        return np.zeros(n)
    if t == 2:
        return rng.uniform(-1, 1, n) * 1e-12
    if t == 3:
        return R.clip(rng.choice([-1e9, 1e9], n), s.lo, s.hi) if s.lo is not None and s.hi is not None else rng.uniform(-5, 5, n)
    if t == 4:
        v = rng.uniform(-1, 1, n)
        v[rng.integers(n)] *= 1e5
        return v
    return s.draw_u(rng)

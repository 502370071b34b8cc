"""Scenarios: real RTA modules built from /repo paired with their reference description."""
import sys
import warnings
from collections import OrderedDict
import numpy as np
from vp.core import REPO
if REPO not in sys.path:
    sys.path.insert(0, REPO)
import scipy.linalg  # noqa

# scipy.linalg.solve_continuous_are fails on the (ill-posed) 12-state design of the delta-v filter on some platforms;
# retry with a small shift so that the filter's behaviour can be observed at all (see known_findings.json).
_care = scipy.linalg.solve_continuous_are
CARE_FALLBACKS = [0]


def _care_retry(a, b, q, r, **kw):
    try:
        return _care(a, b, q, r, **kw)
    except Exception:
        if np.asarray(a).shape[0] != 12:
            raise
        CARE_FALLBACKS[0] += 1
        return _care(np.asarray(a) - 1e-3 * np.eye(12), b, q, r, **kw)


scipy.linalg.solve_continuous_are = _care_retry

import jax  # noqa
import jax.numpy as jnp  # noqa
import run_time_assurance  # noqa
import os  # noqa
assert os.path.realpath(run_time_assurance.__file__).startswith(os.path.realpath(REPO)), run_time_assurance.__file__
from run_time_assurance import constraint as C  # noqa
from run_time_assurance.controller import RTABackupController  # noqa
from run_time_assurance.rta import base as rbase  # noqa
from run_time_assurance.rta import asif as rasif, simplex as rsimplex  # noqa
from run_time_assurance.utils import SolverError, SolverWarning  # noqa
from run_time_assurance.zoo.integrators import integrator_1d as zi  # noqa
from run_time_assurance.zoo.cwh import docking_2d as z2, docking_3d as z3, inspection_1v1 as z1, inspection_3d as zn  # noqa
from vp import ref as R  # noqa
from vp.ref import RC  # noqa

PCS = C.PolynomialConstraintStrengthener


# ------------------------------------------------------------------ user-defined pieces (harness side)
class UC(C.ConstraintModule):
    """user constraint given by fn(xp, x, p)"""

    def __init__(self, fn, phi=None, **kw):
        self._ufn, self._uphi = fn, phi
        super().__init__(**kw)

    def _compute(self, state, params):
        return self._ufn(jnp, state, params)

    def _phi(self, state, params):
        if self._uphi is not None:
            return self._uphi(jnp, state, params)
        return super()._phi(state, params)


def ucpair(fn, params=None, bias=0., alpha=(0, 1.), alpha_neg=None, bias_neg=None, slack=None, phi=None, enabled=True, **sub):
    """(factory of the real constraint, reference constraint)"""
    def make():
        kw = dict(params={k: v if np.isscalar(v) else np.array(v) for k, v in (params or {}).items()}, bias=bias, alpha=PCS(list(alpha)), enabled=enabled, slack_priority_scale=slack)
        if alpha_neg is not None:
            kw['alpha_negative'] = PCS(list(alpha_neg))
        if bias_neg is not None:
            kw['bias_negative'] = bias_neg
        return UC(fn, phi=phi, **kw, **sub)
    rc = RC(lambda x, p: fn(np, x, p), params, bias, alpha, alpha_neg, -0.01 if bias_neg is None else bias_neg,
            None if phi is None else (lambda x, p: phi(np, x, p)), slack, sub, enabled)
    return make, rc


class UScaled(C.ConstraintModule):
    """the same user constraint expressed in another unit (h multiplied by sc, strengthening rescaled): admits the same controls"""

    def __init__(self, base, sc, **kw):
        self._ubase, self._usc = base, sc
        super().__init__(**kw)

    def _compute(self, state, params):
        return self._usc * self._ubase._compute(state, params)


def rescaled(pair, sc):
    make, rc = pair

    def mk():
        base = make()
        poly = lambda cs: PCS([float(c) * sc**(1 - n) for n, c in enumerate(cs)])  # noqa
        neg = rc.alpha_neg_c if rc.alpha_neg_c is not None else [10 * c for c in rc.alpha_c]
        return UScaled(base, sc, params=base.params, bias=rc.bias * sc, alpha=poly(rc.alpha_c), alpha_negative=poly(neg), bias_negative=rc.bias_neg * sc, enabled=rc.enabled,
                       slack_priority_scale=rc.slack, **rc.sub)
    return mk, rc


class UBackup(RTABackupController):
    """stateless user backup law k(xp, x)"""

    def __init__(self, k, **kw):
        self._k = k
        super().__init__(**kw)

    def _generate_control(self, state, step_size, controller_state=None):
        return self._k(jnp, state), None


class USys:
    """control-affine system usable with numpy and jax.numpy"""

    def __init__(self, name, nx, nu, f, g, k):
        self.name, self.nx, self.nu, self.f, self.g, self.k = name, nx, nu, f, g, k


def _arr(xp, rows):
    return xp.array(rows)


def systems():
    S = {}
    S['di1'] = USys('di1', 2, 1, lambda xp, x: xp.array([x[1], 0 * x[0]]), lambda xp, x: xp.array([[0.], [1.]]),
                    lambda xp, x: xp.array([-1.5 * x[1]]))
    S['di2'] = USys('di2', 4, 2, lambda xp, x: xp.array([x[2], x[3], 0 * x[0], 0 * x[0]]),
                    lambda xp, x: xp.array([[0., 0.], [0., 0.], [1., 0.], [0., 0.5]]),
                    lambda xp, x: xp.array([-0.8 * x[2], -1.2 * x[3]]))
    S['pend'] = USys('pend', 2, 1, lambda xp, x: xp.array([x[1], -xp.sin(x[0]) - 0.1 * x[1]]),
                     lambda xp, x: xp.array([[0. * x[0]], [1. + 0.2 * xp.cos(x[0])]]),
                     lambda xp, x: xp.array([-2. * x[1] + 0.3 * xp.sin(x[0])]))
    S['full2'] = USys('full2', 2, 2, lambda xp, x: xp.array([0.3 * x[1] - 0.1 * x[0]**3, -0.2 * x[0] + 0.1 * x[0] * x[1]]),
                      lambda xp, x: xp.array([[1. + 0.1 * x[1]**2, 0.2 + 0 * x[0]], [0.1 + 0 * x[0], 0.8 + 0.05 * xp.sin(x[0])]]),
                      lambda xp, x: xp.array([-0.5 * x[0], -0.5 * x[1]]))
    S['full3'] = USys('full3', 3, 3, lambda xp, x: xp.array([0.1 * x[1], -0.2 * x[0] * x[2], 0.05 * x[0] + 0.1 * xp.cos(x[1])]),
                      lambda xp, x: xp.array([[1. + 0 * x[0], 0.1 * x[2], 0. * x[0]], [0. * x[0], 1.2 + 0 * x[0], -0.1 + 0 * x[0]], [0.2 + 0 * x[0], 0. * x[0], 0.7 + 0.1 * x[0]**2]]),
                      lambda xp, x: xp.array([-0.6 * x[0], -0.4 * x[1], -0.7 * x[2]]))
    S['full4'] = USys('full4', 4, 4, lambda xp, x: xp.array([0.2 * x[3], -0.1 * x[0]**2, 0.1 * xp.sin(x[1]), -0.2 * x[2] * x[0]]),
                      lambda xp, x: xp.array([[1. + 0 * x[0], 0. * x[0], 0.1 * x[1], 0. * x[0]], [0.2 + 0 * x[0], 0.9 + 0 * x[0], 0. * x[0], 0. * x[0]],
                                              [0. * x[0], -0.1 + 0 * x[0], 1.1 + 0.1 * x[3]**2, 0.1 + 0 * x[0]], [0. * x[0], 0. * x[0], 0.2 * x[0], 0.8 + 0 * x[0]]]),
                      lambda xp, x: xp.array([-0.5 * x[0], -0.4 * x[1], -0.6 * x[2], -0.3 * x[3]]))
    return S


SYS = systems()


def npf(sys_):
    return (lambda x: np.asarray(sys_.f(np, np.asarray(x, float)), float)), (lambda x: np.asarray(sys_.g(np, np.asarray(x, float)), float))


def np_k(sys_):
    return lambda x: np.asarray(sys_.k(np, np.asarray(x, float)), float)


def jac_num(fn, x):
    """Jacobian by complex step"""
    x = np.asarray(x, float)
    cols = []
    for i in range(x.size):
        z = x.astype(complex)
        z[i] += 1e-30j
        cols.append(np.imag(fn(z)) / 1e-30)
    return np.stack(cols, axis=1)


def user_module(kind, sys_, makes, lo=None, hi=None, dt_method='Euler', direct=None, backup=None, jaxpred=False, **kw):
    """build a user-defined RTA of the given kind over the library's base classes"""
    cons = lambda: OrderedDict((k, m()) for k, m in makes.items())  # noqa

    class Mixin:
        def _setup_constraints(self):
            return cons()

        def state_transition_system(self, state):
            return sys_.f(jnp, state)

        def state_transition_input(self, state):
            return sys_.g(jnp, state)

        def _setup_direct_constraints(self):
            return OrderedDict((k, m()) for k, m in (direct or {}).items())

    def euler(state, step_size, control):
        return state + step_size * (sys_.f(jnp, state) + sys_.g(jnp, state) @ control)

    class Pred:
        def _pred_state(self, state, step_size, control):
            return euler(state, step_size, control)

    kw = dict(kw, control_bounds_low=lo, control_bounds_high=hi)
    if kind in ('esimplex', 'isimplex', 'iasif'):
        kw['backup_controller'] = backup if backup is not None else UBackup(sys_.k)
    if kind == 'esimplex':
        return type('UExplicitSimplex', (Mixin, Pred, rsimplex.ExplicitSimplexModule), {})(**kw)
    if kind == 'isimplex':
        return type('UImplicitSimplex', (Mixin, Pred, rsimplex.ImplicitSimplexModule), {})(**kw)
    if kind == 'easif':
        return type('UExplicitASIF', (Mixin, rasif.ExplicitASIFModule), {})(control_dim=sys_.nu, **kw)
    if kind == 'iasif':
        return type('UImplicitASIF', (Mixin,) + ((Pred,) if jaxpred else ()) + (rasif.ImplicitASIFModule,), {})(control_dim=sys_.nu, integration_method=dt_method, **kw)
    if kind == 'dasif':
        return type('UDiscreteASIF', (Mixin, rasif.DiscreteASIFModule),
                    {'next_state_differentiable': lambda self, state, step_size, control: euler(state, step_size, control)})(control_dim=sys_.nu, **kw)
    if kind == 'dasif_int':
        return type('UDiscreteASIFInt', (Mixin, rasif.DiscreteASIFIntegratorModule),
                    {'compute_state_dot': lambda self, t, state, control: sys_.f(jnp, state) + sys_.g(jnp, state) @ control})(control_dim=sys_.nu, **kw)
    raise KeyError(kind)


# ------------------------------------------------------------------ scenarios
def sticky(draw):
    """now and then draw the previous state again (with another step size, desired control, parameter value or history around it)"""
    if getattr(draw, 'sticky', False):
        return draw
    last = []

    def d(rng):
        if last and rng.random() < 0.15:
            return last[0].copy()
        if last and rng.random() < 0.06:        # almost the same state
            last[:] = [last[0] * (1 + 3e-6 * rng.normal(size=last[0].shape))]
            return last[0].copy()
        last[:] = [np.array(draw(rng), float)]
        return last[0].copy()
    d.sticky = True
    return d


class Scn:
    """a real-module factory with its reference description"""

    def __init__(self, name, kind, build, nx, nu, lo, hi, cons, f, g, pred, backup, draw, dts, jacb=None, window=None, u_scale=1.,
                 zoo=False, layout=None):
        self.name, self.kind, self.build, self.nx, self.nu, self.lo, self.hi = name, kind, build, nx, nu, lo, hi
        self.cons, self.f, self.g, self.pred, self.backup, self.draw, self.dts = cons, f, g, pred, backup, sticky(draw), dts
        self.jacb, self.window, self.u_scale, self.zoo = jacb, window, u_scale, zoo

    def bk(self, x):
        return R.clip(self.backup(x), self.lo, self.hi)

    def draw_u(self, rng):
        m = rng.integers(0, 6)
        s = self.u_scale
        if m == 5 and getattr(self, 'last_u', None) is not None:
            return self.last_u.copy()
        self.last_u = self._draw_u(rng, int(m), s)
        if rng.random() < 0.06:
            self.last_u = np.round(self.last_u)
        return self.last_u.copy()

    def _draw_u(self, rng, m, s):
        if m == 0:
            return rng.uniform(-1, 1, self.nu) * s
        if m == 1:
            return rng.uniform(-0.2, 0.2, self.nu) * s
        if m == 2:
            return rng.choice([-1., 1.], self.nu) * s
        if m == 3:
            return rng.uniform(-3, 3, self.nu) * s
        return np.zeros(self.nu)

    def margins(self, x):
        """smallest biased h over enabled constraints"""
        v = [c.h(x) for c in self.cons.values() if c.enabled]
        return min(v) if v else np.inf

    def explicit_rows(self, x, extra=True):
        """barrier rows (A u >= b) with an absolute error estimate per row"""
        A, b, e, names = [], [], [], []
        fx, gx = self.f(x), self.g(x)
        for k, c in self.cons.items():
            if not c.enabled:
                continue
            gr = c.grad(x)
            h = c.h(x)
            al = c.alpha_any(h)
            A.append(gr @ gx)
            b.append(-(gr @ fx) - al)
            e.append(np.sum(np.abs(gr) * np.abs(fx)) + abs(al) + np.sum(np.abs(A[-1])) + abs(h))
            names.append(k)
        return np.array(A).reshape(-1, self.nu), np.array(b), np.array(e), names


def bounds_variants(nu, mag, rng):
    m = int(rng.integers(0, 5))
    if m == 0:
        return -mag, mag
    if m == 1:
        return [-mag * float(v) for v in rng.uniform(0.4, 1.5, nu)], [mag * float(v) for v in rng.uniform(0.4, 1.5, nu)]
    if m == 2:
        return -mag * rng.uniform(0.4, 1.5, nu), mag * rng.uniform(0.4, 1.5, nu)
    if m == 3:
        return -0.6 * mag, 1.3 * mag
    return -mag, [mag * float(v) for v in rng.uniform(0.4, 1.5, nu)]


# ---- zoo references
def integrator_scn(kind, rng=None, **over):
    rng = rng or np.random.default_rng(0)
    kw = dict(m=1.0)
    kw.update(over)
    m = kw['m']
    lo, hi = kw.get('control_bounds_low', -1), kw.get('control_bounds_high', 1)
    A, B = np.array([[0., 1.], [0., 0.]]), np.array([[0.], [1. / m]])
    method = kw.get('integration_method', 'Euler')
    cls = {'esimplex': zi.Integrator1dDockingExplicitSwitchingRTA, 'isimplex': zi.Integrator1dDockingImplicitSwitchingRTA,
           'easif': zi.Integrator1dDockingExplicitOptimizationRTA, 'iasif': zi.Integrator1dDockingImplicitOptimizationRTA}[kind]
    if kind in ('esimplex', 'easif'):
        cons = OrderedDict(rel_vel=RC(lambda x, p: -2 * x[0] - x[1]**2, {}, 0., (0, 1, 0, 30)))
    else:
        cons = OrderedDict(rel_vel=RC(lambda x, p: -x[0], {}, 0., (0, 10, 0, 30), sub={'subsample_constraints_num_least': 1}))

    def draw(rng):
        t = rng.integers(0, 4)
        if t == 0:
            return np.array([rng.uniform(-3, 0.3), rng.uniform(-2, 2)])
        v = rng.uniform(-1.5, 1.5)
        s = 10.**rng.uniform(-4, 0)
        return np.array([-v * v / 2 + rng.choice([-1, 1]) * s, v])
    bkw = dict(kw)
    win = kw.get('backup_window', 2) if kind in ('isimplex', 'iasif') else None
    return Scn('zoo.integrator.' + kind, kind, lambda **k: cls(**{**bkw, **k}), 2, 1, lo, hi, cons, lambda x: A @ x, lambda x: B,
               R.LinStep(A, B, method), lambda x: np.array([-1.]), draw, [0.1, 0.05, 0.25, 1.0, 0.3], jacb=lambda x: A, window=win, zoo=True)


def docking_scn(dim, kind, **over):
    mod = z2 if dim == 2 else z3
    pre = f'Docking{dim}d'
    cls = getattr(mod, pre + {'esimplex': 'ExplicitSwitchingRTA', 'isimplex': 'ImplicitSwitchingRTA', 'easif': 'ExplicitOptimizationRTA',
                              'iasif': 'ImplicitOptimizationRTA'}[kind])
    kw = dict(over)
    m, n = kw.get('m', R.M_CWH), kw.get('n', R.N_CWH)
    v0, v1c, d0 = kw.get('v0', 0.2), kw.get('v1_coef', 2 if dim == 2 else 4), kw.get('v0_distance', 0)
    lims = [kw.get(a + '_vel_limit', 10) for a in 'xyz'[:dim]]
    lo, hi = kw.get('control_bounds_low', -1), kw.get('control_bounds_high', 1)
    A, B = R.cwh(m, n, dim)
    method = kw.get('integration_method', 'RK45')
    cons = OrderedDict()
    cons['rel_vel'] = RC(R.rel_vel(dim), {'v0': v0, 'v1': v1c * n, 'v0_distance': d0}, -1e-4, (0, .01, 0, .1) if dim == 2 else (0, .05, 0, .005))
    for i in range(dim):
        cons['xyz'[i] + '_vel'] = RC(R.lim_mag(dim + i), {'limit_val': lims[i]}, 0., (0, 0.0005, 0, 0.001))
    Kv = R.lqr_stop(m, n, dim)

    def draw(rng):
        r = rng.normal(size=dim)
        r /= np.linalg.norm(r)
        dist = 10.**rng.uniform(-0.5, 4)
        vd = rng.normal(size=dim)
        vd /= np.linalg.norm(vd)
        p = cons['rel_vel'].params
        vmax = p['v0'] + p['v1'] * (dist - p['v0_distance'])
        t = rng.integers(0, 5)
        if t == 0:
            sp = rng.uniform(0, 1.3) * abs(vmax)
        elif t == 1:
            sp = abs(vmax * (1 + rng.choice([-1, 1]) * 10.**rng.uniform(-5, -1)))
        elif t == 2:
            sp = rng.uniform(0, 12)
        elif t == 3:
            sp = abs(vmax - 1e-4 + rng.choice([-1, 1]) * 10.**rng.uniform(-5, -1))
        else:
            sp = abs(vmax) + rng.uniform(-0.3, 0.1)
        v = vd * sp
        if rng.random() < 0.25:
            i = rng.integers(0, dim)
            v[i] = rng.choice([-1, 1]) * lims[i] * (1 + rng.choice([-1, 1]) * 10.**rng.uniform(-4, -1))
        return np.concatenate([r * dist, v])
    bkw = dict(kw)
    win = kw.get('backup_window', 5) if kind in ('isimplex', 'iasif') else None
    return Scn(f'zoo.docking{dim}d.{kind}', kind, lambda **k: cls(**{**bkw, **k}), 2 * dim, dim, lo, hi, cons, lambda x: A @ x, lambda x: B,
               R.LinStep(A, B, method), lambda x: -Kv @ x, draw, [1.0, 0.5, 0.25, 2.0], jacb=lambda x: A - B @ Kv, window=win, zoo=True)


def insp_common(kw):
    m, n = kw.get('m', R.M_CWH), kw.get('n', R.N_CWH)
    d = dict(m=m, n=n, cr=kw.get('chief_radius', 5), dr=kw.get('deputy_radius', 5), v0=kw.get('v0', 0.2), v1=kw.get('v1_coef', 2) * n,
             d0=kw.get('v0_distance', 0), rmax=kw.get('r_max', 1000), fov=kw.get('fov', np.pi / 3), vl=kw.get('vel_limit', 1), w=kw.get('sun_vel', -R.N_CWH))
    vmax = min(d['vl'], d['v0'] + d['v1'] * d['rmax'])
    d['amax'] = 1.0 / m - 3 * n**2 * d['rmax'] - 2 * n * vmax
    return d


def insp_draw(cons, d, ndep, wide=True):
    unit = lambda rng: (lambda q: q / np.linalg.norm(q))(rng.normal(size=3))  # noqa

    def one(rng):
        r = unit(rng)
        dist = rng.choice([rng.uniform(1, 30), rng.uniform(10, 200), rng.uniform(200, 1100)])
        v = unit(rng)
        t = rng.integers(0, 4)
        vm = d['v0'] + d['v1'] * dist
        sp = [rng.uniform(0, 0.6) * vm, rng.uniform(0.9, 1.1) * vm, rng.uniform(0, 1.2), rng.uniform(0, 0.3)][t]
        return r * dist, v * sp

    def near(rng):
        """relative distance / closing speed close to the edge of a barrier sqrt(2 a s) + closing"""
        return 10.**rng.uniform(-3, 0.3), 1 + rng.choice([-1, -1, -1, 1]) * 10.**rng.uniform(-3, -0.3)

    def aim(rng, rad):
        """a free-flight miss distance close to rad"""
        n_ = unit(rng)
        o = np.cross(n_, unit(rng))
        o /= np.linalg.norm(o)
        dist, sp = rng.uniform(1.2 * rad, 4 * rad), rng.uniform(0.15, 0.4)
        tgt = o * (rad + rng.choice([-1, 1, 1, 1]) * 10.**rng.uniform(-2, 1))
        p = n_ * dist
        return p, sp * (tgt - p) / np.linalg.norm(tgt - p)

    def conev(rng, ang, dist):
        c = sun_axis(ang)
        o = np.cross(c, unit(rng))
        o /= np.linalg.norm(o)
        s, k = near(rng)
        th = d['fov'] / 2 + np.arcsin(min(1, s / dist))
        p = dist * (np.cos(th) * c + np.sin(th) * o)
        nrm = np.cos(d['fov'] / 2) * o - np.sin(d['fov'] / 2) * c
        tan = np.cross(nrm, unit(rng))
        return p, -nrm * np.sqrt(2 * d['amax'] * s) * k + 0.05 * tan

    def sun_axis(a):
        return np.array([-np.cos(a), -np.sin(a), 0.])

    def draw(rng):
        ang = rng.uniform(-np.pi, np.pi)
        parts = []
        mode = rng.integers(0, 9)
        p, v = one(rng)
        s, k = near(rng)
        n_ = unit(rng)
        if mode == 1:     # closing on the chief
            p, v = n_ * (d['cr'] + d['dr'] + s), -n_ * np.sqrt(2 * d['amax'] * s) * k + 0.03 * np.cross(n_, unit(rng))
        elif mode == 2:   # leaving the operating area
            p, v = n_ * (d['rmax'] - s), n_ * np.sqrt(2 * d['amax'] * s) * k + 0.03 * np.cross(n_, unit(rng))
        elif mode == 3:
            p, v = aim(rng, d['cr'] + d['dr'])
        elif mode == 4:
            p, v = conev(rng, ang, rng.uniform(20, 600))
        elif mode == 5:   # axis speed
            v = unit(rng) * 0.3
            v[rng.integers(3)] = rng.choice([-1, 1]) * d['vl'] * (1 - 10.**rng.uniform(-4, -1))
            p = n_ * rng.uniform(500, 900)
        elif mode in (6, 7, 8):  # calm own state, another deputy is the problem
            p, v = n_ * rng.uniform(50, 600), unit(rng) * rng.uniform(0, 0.15)
        parts.append(np.concatenate([p, v]))
        for i in range(1, ndep):
            q, w = one(rng)
            if mode in (6, 7, 8) or rng.random() < 0.3:
                m = unit(rng)
                if mode == 6:
                    s, k = near(rng)
                    dp, dv = m * (2 * d['dr'] + s), -m * np.sqrt(4 * d['amax'] * s) * k
                elif mode == 7:
                    dp, dv = aim(rng, d['cr'] + d['dr'])
                elif mode == 8:
                    dp, dv = conev(rng, ang, rng.uniform(15, 80))
                    if rng.random() < 0.5:
                        dp, dv = -dp, -dv
                else:
                    dp, dv = m * rng.uniform(6, 60), unit(rng) * 0.2
                q, w = p - dp, v - dv
            parts.append(np.concatenate([q, w]))
        return np.concatenate(parts), ang
    return draw


def insp1v1_scn(kind='easif', **over):
    kw = dict(over)
    d = insp_common(kw)
    hocbf = kw.get('use_hocbf', False)
    A6, B6 = R.cwh(d['m'], d['n'], 3)
    lo, hi = kw.get('control_bounds_low', -1), kw.get('control_bounds_high', 1)
    disc = kind == 'dasif'
    gp, gv, ga = (lambda x: x[0:3]), (lambda x: x[3:6]), (lambda x: x[6])
    cons = OrderedDict()
    rad = d['cr'] + d['dr']
    cc = RC(R.chief_collision, {'collision_radius': rad, 'a_max': d['amax']}, 0., (0, .01, 0, .001), phi=R.chief_dist)
    if disc:
        cons['chief_collision'] = cc
    cons['rel_vel'] = RC(R.rel_vel(3), {'v0': d['v0'], 'v1': d['v1'], 'v0_distance': d['d0']}, -1e-3, (0, .01, 0, .001) if disc else (0, .05, 0, .005))
    cons['sun'] = RC(R.cone(gp, gv, ga, d['w']), {'fov': d['fov'], 'a_max': d['amax']}, -1e-3, (0, .001, 0, .001) if disc else (0, .001, 0, .0001),
                     phi=R.cone_phi(gp, ga))
    cons['r_max'] = RC(R.max_dist, {'r_max': d['rmax'], 'a_max': d['amax']}, -1e-3, (0, .001, 0, .001) if disc else (0, .01, 0, .001), phi=R.max_dist_phi)
    cons['PSM'] = RC(R.psm(d['n'], 100), {'collision_radius': rad, 'dt': 1}, 0., (0, .001, 0, .001) if disc else (0, .01, 0, .001))
    for i in range(3):
        cons['xyz'[i] + '_vel'] = RC(R.lim_mag(3 + i), {'limit_val': d['vl']}, -1e-3, (0, .1, 0, .01))
    if not disc:
        if hocbf:
            al = (0, .1, 0, .1)

            def psi(x, p):
                r = R.rnorm(x[0:3])
                h = r - p['collision_radius']
                return np.sum(x[0:3] * x[3:6]) / r + R.poly(al, h)
            cons['chief_collision_hocbf'] = RC(psi, {'collision_radius': rad}, 0., al, phi=lambda x, p: R.rnorm(x[0:3]) - p['collision_radius'])
        else:
            cons['chief_collision'] = cc
    dr = insp_draw(cons, d, 1)

    def draw(rng):
        s, a = dr(rng)
        return np.concatenate([s, [a, rng.uniform(0, 15)]])

    def f(x):
        return np.concatenate([A6 @ x[:6], [d['w'], 0.]])
    G = np.vstack([B6, np.zeros((2, 3))])
    step = R.LinStep(A6, B6, 'RK45')

    def nxt(x, dt, u):
        return np.concatenate([step(x[:6], dt, u), [x[6] + d['w'] * dt, 0.]])
    cls = z1.DiscreteInspection1v1RTA if disc else z1.Inspection1v1RTA
    bkw = dict(kw)
    return Scn('zoo.inspection1v1.' + kind + ('.hocbf' if hocbf else ''), kind, lambda **k: cls(**{**bkw, **k}), 8, 3, lo, hi, cons, f, lambda x: G, nxt, None,
               draw, [1.0, 0.5], zoo=True)


def inspn_scn(ndep, **over):
    kw = dict(over)
    d = insp_common(kw)
    A6, B6 = R.cwh(d['m'], d['n'], 3)
    lo, hi = kw.get('control_bounds_low', -1), kw.get('control_bounds_high', 1)
    gp, gv, ga = (lambda x: x[0:3]), (lambda x: x[3:6]), (lambda x: x[-1])
    cons = OrderedDict()
    rad = d['cr'] + d['dr']
    cons['chief_collision'] = RC(R.chief_collision, {'collision_radius': rad, 'a_max': d['amax']}, 0., (0, .01, 0, .001), phi=R.chief_dist)
    cons['rel_vel'] = RC(R.rel_vel(3), {'v0': d['v0'], 'v1': d['v1'], 'v0_distance': d['d0']}, -2e-3, (0, 0, 0, .1))
    cons['chief_sun'] = RC(R.cone(gp, gv, ga, d['w']), {'fov': d['fov'], 'a_max': d['amax']}, -1e-3, (0, .001, 0, .0001), phi=R.cone_phi(gp, ga))
    cons['r_max'] = RC(R.max_dist, {'r_max': d['rmax'], 'a_max': d['amax']}, 0., (0, .01, 0, .001), phi=R.max_dist_phi)
    cons['PSM'] = RC(R.psm(d['n'], 100), {'collision_radius': rad, 'dt': 1}, 0., (0, .01, 0, .001))
    for i in range(3):
        cons['xyz'[i] + '_vel'] = RC(R.lim_mag(3 + i), {'limit_val': d['vl']}, -1e-3, (0, .1, 0, .01))
    for i in range(1, ndep):
        cons[f'deputy_collision_{i}'] = RC(R.deputy_collision(i), {'collision_radius': 2 * d['dr'], 'a_max': d['amax']}, 0., (0, .01, 0, .001), phi=R.deputy_dist(i))

        def sgn(x, i=i):
            r = R.re(x[0:3] - x[6 * i:6 * i + 3])
            return 1. if np.sum(r * R.sun_vec(R.re(x[-1]))) >= 0 else -1.
        cons[f'deputy_sun_{i}'] = RC(R.cone(lambda x, i=i, s=sgn: s(x) * (x[0:3] - x[6 * i:6 * i + 3]), lambda x, i=i, s=sgn: s(x) * (x[3:6] - x[6 * i + 3:6 * i + 6]), ga, d['w']),
                                     {'fov': d['fov'], 'a_max': d['amax']}, -1e-3, (0, 0, 0, .1),
                                     phi=R.cone_phi(lambda x, i=i, s=sgn: s(x) * (x[0:3] - x[6 * i:6 * i + 3]), ga))
        cons[f'deputy_PSM_{i}'] = RC(R.psm(d['n'], 100, i), {'collision_radius': rad, 'dt': 1}, 0., (0, .01, 0, .001))
    dr = insp_draw(cons, d, ndep)

    def draw(rng):
        s, a = dr(rng)
        return np.concatenate([s, [a]])
    nx = 6 * ndep + 1
    Ablk = scipy.linalg.block_diag(*[A6] * ndep)

    def f(x):
        return np.concatenate([Ablk @ x[:-1], [d['w']]])
    G = np.zeros((nx, 3))
    G[:6] = B6
    bkw = dict(kw)
    return Scn(f'zoo.inspection{ndep}', 'easif', lambda **k: zn.InspectionRTA(**{'num_deputies': ndep, **bkw, **k}), nx, 3, lo, hi, cons, f, lambda x: G, None, None, draw,
               [1.0], zoo=True)


# ---- user systems
def libpair(cls, fn, lim, idx, al, bias, slack, sub):
    """library state-limit constraint with its reference"""
    return (lambda: cls(limit_val=lim, state_index=idx, alpha=PCS(list(al)), bias=bias, slack_priority_scale=slack, **sub)), RC(fn(idx), {'limit_val': lim}, bias, al, slack=slack, sub=sub)


def user_cons(sysname, rng, subf=None, slackf=None):
    """a random constraint set: ordered dict name -> (factory, RC)"""
    S = SYS[sysname]
    out = OrderedDict()
    order = []

    def sub():
        """extra constructor settings of the next constraint: sub-sampling and slack priority"""
        order.append(None)
        kw = dict(subf(len(order) - 1)) if subf else {}
        return kw

    def slk():
        return slackf(len(order)) if slackf else None

    def al():
        return (0, float(rng.uniform(0.1, 2)), 0, float(rng.uniform(0, 1)))
    neg = (0, float(rng.uniform(1, 6))) if rng.random() < 0.5 else None
    bn = float(-rng.uniform(0, 0.05)) if rng.random() < 0.5 else None
    if sysname in ('di1', 'pend'):
        out['ball'] = ucpair(lambda xp, x, p: p['r']**2 - p['k'] * x[0]**2 - x[1]**2 - 0.5 * x[0] * x[1], {'r': float(rng.uniform(0.8, 2)), 'k': float(rng.uniform(0.3, 1.2))}, slack=slk(), **sub(),
                             bias=float(rng.choice([0, -0.05])), alpha=al(), alpha_neg=neg, bias_neg=bn)
        out['brake'] = ucpair(lambda xp, x, p: p['c'] - x[0] - p['t'] * x[1], {'c': float(rng.uniform(0.5, 1.5)), 't': float(rng.uniform(0.5, 1.5))}, slack=slk(), **sub(),
                              bias=float(rng.choice([0, -0.02])), alpha=al())
        lim = float(rng.uniform(0.7, 1.6))
        a3 = al()
        out['vlim'] = libpair(C.ConstraintMagnitudeStateLimit, R.lim_mag, lim, 1, a3, 0., slk(), sub())
    elif sysname == 'di2':
        out['speed'] = ucpair(lambda xp, x, p: p['v']**2 - x[2]**2 - x[3]**2, {'v': float(rng.uniform(0.8, 2))}, slack=slk(), **sub(), bias=float(rng.choice([0, -0.05])), alpha=al(), alpha_neg=neg)
        out['wall'] = ucpair(lambda xp, x, p: p['c'] - x[0] - x[2] - 0.3 * x[1] - 0.4 * x[3], {'c': float(rng.uniform(0.5, 2))}, slack=slk(), **sub(), alpha=al(), bias_neg=bn)
        a3 = al()
        l3 = float(rng.uniform(0.6, 1.5))
        out['vymax'] = libpair(C.ConstraintMaxStateLimit, R.lim_max, l3, 3, a3, 0., slk(), sub())
        a4 = al()
        l4 = float(-rng.uniform(0.6, 1.5))
        out['vymin'] = libpair(C.ConstraintMinStateLimit, R.lim_min, l4, 3, a4, -0.01, slk(), sub())
    else:
        nx = S.nx
        w = rng.uniform(0.5, 1.5, nx)
        out['ellipse'] = ucpair(lambda xp, x, p: p['r']**2 - xp.sum(xp.array(w) * x * x), {'r': float(rng.uniform(0.8, 1.6))}, slack=slk(), **sub(), bias=float(rng.choice([0, -0.05])), alpha=al(), alpha_neg=neg)
        q = rng.normal(size=nx)
        out['plane'] = ucpair(lambda xp, x, p: p['c'] - xp.sum(xp.array(q) * x), {'c': float(rng.uniform(0.4, 1.2))}, slack=slk(), **sub(), alpha=al(), bias_neg=bn)
        ctr = rng.uniform(-0.6, 0.6, nx)
        out['obst'] = ucpair(lambda xp, x, p: xp.sum((x - p['ctr'])**2) - p['rad']**2, {'rad': float(rng.uniform(0.15, 0.4)), 'ctr': ctr}, slack=slk(), **sub(), alpha=al())
    return out


def user_scn(kind, sysname, seed, lo=None, hi=None, window=None, method='Euler', cons=None, umag=1.0, backup_k=None, subf=None, slackf=None, units=None, late=False, **over):
    rng = np.random.default_rng(seed)
    S = SYS[sysname]
    if late:      # slow braking: the position margin shrinks until the very end of a long backup window
        kap = float(rng.uniform(0.25, 0.6))
        n = S.nx // 2
        backup_k = lambda xp, x: -kap * x[n:] * (1 + 0.2 * x[n:]**2)  # noqa
        cons = OrderedDict(wall=ucpair(lambda xp, x, p: p['c'] - x[0] - 0.3 * x[n - 1], {'c': float(rng.uniform(1., 2.5))}, alpha=(0, 0.7), bias=float(rng.choice([0, -0.05]))),
                           vlim=libpair(C.ConstraintMagnitudeStateLimit, R.lim_mag, 2.5, S.nx - 1, (0, 1.), 0., None, {}))
    if backup_k is not None:
        S = USys(S.name, S.nx, S.nu, S.f, S.g, backup_k)
    cs = cons if cons is not None else user_cons(sysname, rng, subf, slackf)
    if units:
        cs = OrderedDict((k, rescaled(v, units[i % len(units)])) for i, (k, v) in enumerate(cs.items()))
    makes = OrderedDict((k, v[0]) for k, v in cs.items())
    refs = OrderedDict((k, v[1].copy()) for k, v in cs.items())
    f, g = npf(S)
    k = np_k(S)
    kw = dict(over)
    if window is not None:
        kw['backup_window'] = window

    def draw(rng):
        x = rng.normal(size=S.nx)
        x = x / np.linalg.norm(x) * rng.uniform(0, 2.0)
        return x

    if method == 'Euler':
        pred = lambda x, dt, u: x + dt * (f(x) + g(x) @ u)  # noqa
    else:
        pred = lambda x, dt, u: ode_same(lambda y: f(y) + g(y) @ u, x, dt)  # noqa
    jacb = lambda x: jac_num(lambda z: S.f(np, z) + np.asarray(S.g(np, z)) @ S.k(np, z), x)  # noqa
    return Scn(f'user.{sysname}.{kind}', kind, lambda **kk: user_module(kind, S, makes, lo, hi, method, **{**kw, **kk}), S.nx, S.nu, lo, hi, refs, f, g, pred, k, draw,
               [0.1, 0.05, 0.2, 0.25], jacb=jacb, window=window, u_scale=umag)


def ode_same(fn, x, dt):
    from scipy.integrate import solve_ivp
    return solve_ivp(lambda t, y: fn(y), (0, dt), x).y[:, -1]

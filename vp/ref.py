"""Independent float64 reference models (numpy only; gradients by complex step)."""
import numpy as np
import quadprog
import scipy.linalg
from scipy.integrate import solve_ivp

M_CWH, N_CWH = 12.0, 0.001027


# ---------------------------------------------------------------- constraints
def poly(coefs, x):
    return sum(c * x**i for i, c in enumerate(coefs))


def rnorm(v):
    """complex-step safe norm"""
    return np.sqrt(np.sum(v * v))


def re(x):
    return x.real if np.iscomplexobj(x) else x


class RC:
    """reference constraint: fn(x, p) is the un-biased formula, complex-step safe"""

    def __init__(self, fn, params=None, bias=0., alpha=(0, 1), alpha_neg=None, bias_neg=-0.01, phi=None, slack=None, sub=None, enabled=True):
        self.fn, self.params, self.bias = fn, dict(params or {}), bias
        self.alpha_c, self.alpha_neg_c, self.bias_neg = alpha, alpha_neg, bias_neg
        self.phi_fn, self.slack, self.sub, self.enabled = phi, slack, dict(sub or {}), enabled

    def copy(self):
        c = RC(self.fn, self.params, self.bias, self.alpha_c, self.alpha_neg_c, self.bias_neg, self.phi_fn, self.slack, self.sub, self.enabled)
        if hasattr(self, 'grad_fn'):
            c.grad_fn = self.grad_fn
        return c

    def h(self, x, p=None):
        return float(re(self.fn(np.asarray(x, float), self.params if p is None else p))) + self.bias

    def phi(self, x, p=None):
        p = self.params if p is None else p
        if self.phi_fn is not None:
            return float(re(self.phi_fn(np.asarray(x, float), p)))
        return float(re(self.fn(np.asarray(x, float), p)))

    def grad(self, x, p=None):
        p = self.params if p is None else p
        if hasattr(self, 'grad_fn'):
            return self.grad_fn(np.asarray(x, float), p)
        x = np.asarray(x, float)
        g = np.zeros(x.size)
        for i in range(x.size):
            z = x.astype(complex)
            z[i] += 1e-30j
            g[i] = np.imag(self.fn(z, p)) / 1e-30
        return g

    def alpha(self, v):
        return poly(self.alpha_c, v)

    def alpha_any(self, v):
        """explicit ASIF strengthening (recovery branch when negative)"""
        if v < 0:
            neg = 10 * self.alpha(v) if self.alpha_neg_c is None else poly(self.alpha_neg_c, v)
            return neg + self.bias_neg
        return self.alpha(v)


def lim_mag(i):
    return lambda x, p: p['limit_val']**2 - x[i]**2


def lim_max(i):
    return lambda x, p: p['limit_val'] - x[i]


def lim_min(i):
    return lambda x, p: x[i] - p['limit_val']


def rel_vel(d, delta=1e-5):
    nd = lambda v: np.sqrt(np.sum(v * v) + delta)  # noqa
    return lambda x, p: p['v0'] + p['v1'] * (nd(x[0:d]) - p['v0_distance']) - nd(x[d:2 * d])


def sdist(dist, a, k=2):
    """sign-preserving sqrt(k a dist)"""
    return np.sqrt(k * a * dist) if re(dist) >= 0 else -np.sqrt(-k * a * dist)


def collision(get):
    def fn(x, p, k):
        dp, dv = get(x)
        r = rnorm(dp)
        return sdist(r - p['collision_radius'], p['a_max'], k) + np.sum(dp * dv) / r
    return fn


def chief_collision(x, p):
    return collision(lambda s: (s[0:3], s[3:6]))(x, p, 2)


def chief_dist(x, p):
    return rnorm(x[0:3]) - p['collision_radius']


def deputy_collision(i):
    return lambda x, p: collision(lambda s: (s[0:3] - s[6 * i:6 * i + 3], s[3:6] - s[6 * i + 3:6 * i + 6]))(x, p, 4)


def deputy_dist(i):
    return lambda x, p: rnorm(x[0:3] - x[6 * i:6 * i + 3]) - p['collision_radius']


def max_dist(x, p):
    r = rnorm(x[0:3])
    return sdist(p['r_max'] - r, p['a_max'], 2) - np.sum(x[0:3] * x[3:6]) / r


def max_dist_phi(x, p):
    return p['r_max'] - rnorm(x[0:3])


def sun_vec(ang):
    return np.array([-np.cos(ang), -np.sin(ang), 0 * ang])


def cone(get_pos, get_vel, get_ang, omega):
    """keep-out cone of half angle fov/2 about the cone axis, rotating with angular speed omega about z.
    Signed distance s of the position to the cone surface (positive outside), n = unit outward direction:
    h = sqrt(2 a s) + n.(v - v_surface), v_surface = omega x (closest surface point)."""
    def fn(x, p):
        r, v, c = get_pos(x), get_vel(x), sun_vec(get_ang(x))
        th = p['fov'] / 2
        ax = np.sum(r * c)
        perp = r - ax * c
        rho = rnorm(perp)
        e = perp / rho
        # rho cos(th) - ax sin(th) is the signed distance to the cone surface
        s = rho * np.cos(th) - ax * np.sin(th)
        nrm = e * np.cos(th) - c * np.sin(th)
        surf = r - s * nrm
        vs = np.array([-omega * surf[1], omega * surf[0], 0 * surf[0]])
        return sdist(s, p['a_max'], 2) + np.sum(nrm * (v - vs))
    return fn


def cone_phi(get_pos, get_ang):
    def fn(x, p):
        r, c = get_pos(x), sun_vec(get_ang(x))
        return np.arccos(np.sum(r * c) / rnorm(r)) - p['fov'] / 2
    return fn


def cwh_free(n, t):
    """position rows of the unforced relative-motion transition matrix at time t"""
    s, c = np.sin(n * t), np.cos(n * t)
    return np.array([[4 - 3 * c, 0, 0, s / n, 2 * (1 - c) / n, 0],
                     [6 * (s - n * t), 1, 0, -2 * (1 - c) / n, (4 * s - 3 * n * t) / n, 0],
                     [0, 0, c, 0, 0, s / n]])


def psm(n, steps, deputy=None):
    cache = {}
    def fn(x, p):
        key = float(p['dt'])
        if key not in cache:
            cache[key] = np.stack([cwh_free(n, key * (k + 1)) for k in range(steps)])
        z = x[0:6] if deputy is None else x[0:6] - x[6 * deputy:6 * deputy + 6]
        pos = cache[key] @ z
        d = np.sqrt(np.sum(pos * pos, axis=1)) - p['collision_radius']
        return d[np.argmin(re(d))]
    return fn


# ---------------------------------------------------------------- dynamics
def cwh(m, n, dim):
    if dim == 2:
        A = np.array([[0, 0, 1, 0], [0, 0, 0, 1], [3 * n * n, 0, 0, 2 * n], [0, 0, -2 * n, 0]], float)
        B = np.array([[0, 0], [0, 0], [1 / m, 0], [0, 1 / m]], float)
    else:
        A = np.zeros((6, 6))
        A[0, 3] = A[1, 4] = A[2, 5] = 1
        A[3, 0], A[3, 4], A[4, 3], A[5, 2] = 3 * n * n, 2 * n, -2 * n, -n * n
        B = np.zeros((6, 3))
        B[3, 0] = B[4, 1] = B[5, 2] = 1 / m
    return A, B


def zoh(A, B, dt):
    n, m = B.shape
    M = np.zeros((n + m, n + m))
    M[:n, :n], M[:n, n:] = A * dt, B * dt
    E = scipy.linalg.expm(M)
    return E[:n, :n], E[:n, n:]


class LinStep:
    def __init__(self, A, B, method):
        self.A, self.B, self.method, self.c = A, B, method, {}

    def __call__(self, x, dt, u):
        if self.method == 'Euler':
            return x + dt * (self.A @ x + self.B @ u)
        if dt not in self.c:
            self.c[dt] = zoh(self.A, self.B, dt)
        Ad, Bd = self.c[dt]
        return Ad @ x + Bd @ u


def ode_step(f, x, dt, rtol=1e-10, atol=1e-12):
    s = solve_ivp(lambda t, y: f(y), (0, dt), x, rtol=rtol, atol=atol)
    return s.y[:, -1]


def lqr_stop(m, n, dim):
    A, B = cwh(m, n, dim)
    Q, R = 0.05 * np.eye(2 * dim), 1000 * np.eye(dim)
    P = scipy.linalg.solve_continuous_are(A, B, Q, R)
    K = np.linalg.inv(R) @ B.T @ P
    Kv = K.copy()
    Kv[:, :dim] = 0
    return Kv


def clip(u, lo, hi):
    u = np.asarray(u, float)
    if lo is not None:
        u = np.maximum(u, np.asarray(lo, float))
    if hi is not None:
        u = np.minimum(u, np.asarray(hi, float))
    return u


# ---------------------------------------------------------------- optimisation
def bound_rows(m, lo, hi):
    A, b = [], []
    if lo is not None:
        l = np.broadcast_to(np.asarray(lo, float), (m,))
        A += list(np.eye(m)); b += list(l)
    if hi is not None:
        h = np.broadcast_to(np.asarray(hi, float), (m,))
        A += list(-np.eye(m)); b += list(-h)
    return np.array(A).reshape(-1, m), np.array(b)


def proj(ud, A, b):
    """closest point to ud with A u >= b; None when infeasible. Rows are normalised."""
    A, b = np.asarray(A, float).reshape(-1, ud.size), np.asarray(b, float)
    nr = np.linalg.norm(A, axis=1)
    z = nr < 1e-13
    if np.any(b[z] > 1e-13):
        return None
    A, b = A[~z] / nr[~z, None], b[~z] / nr[~z]
    if A.shape[0] == 0:
        return ud.copy()
    try:
        return quadprog.solve_qp(np.eye(ud.size), ud.astype(float), A.T.copy(), b.copy(), 0)[0]
    except ValueError:
        return None


def min_slack(A, b):
    """smallest t with A u >= b - t for normalised rows (feasibility margin), via LP"""
    from scipy.optimize import linprog
    A, b = np.asarray(A, float), np.asarray(b, float)
    nr = np.linalg.norm(A, axis=1)
    z = nr < 1e-13
    worst = max([0.] + list(b[z]))
    A, b = A[~z] / nr[~z, None], b[~z] / nr[~z]
    m = A.shape[1]
    r = linprog(np.r_[np.zeros(m), 1.], A_ub=np.c_[-A, -np.ones(len(b))], b_ub=-b, bounds=[(None, None)] * m + [(-1., None)])
    return max(worst, r.x[-1]) if r.status == 0 else (worst or None)


def judge_qp(u, ud, A, b, eps, ctol=1e-7):
    """Bracketing oracle for u = argmin |u-ud|^2, A u >= b, rows known up to eps (absolute, per row).
    returns (verdict, info): 'ok', 'infeasible' (definitely no solution), 'ambiguous', or 'bad:<why>'"""
    A, b, eps = np.asarray(A, float).reshape(-1, ud.size), np.asarray(b, float), np.asarray(eps, float)
    tight = proj(ud, A, b + eps)
    relax = proj(ud, A, b - eps)
    if relax is None:
        return 'infeasible', {}
    if tight is None:
        return 'ambiguous', {}
    nr = np.linalg.norm(A, axis=1)
    viol = (b - A @ u) - eps - 1e-9 * (1 + nr)
    info = {'ref': proj(ud, A, b), 'cost': float(np.linalg.norm(u - ud)), 'cost_ref': float(np.linalg.norm(tight - ud))}
    if np.any(viol > 0):
        i = int(np.argmax(viol))
        info.update(row=i, margin=float((A @ u - b)[i]))
        return 'bad:constraint violated', info
    if np.linalg.norm(u - ud) > np.linalg.norm(tight - ud) + ctol * (1 + np.linalg.norm(ud)):
        return 'bad:not the closest', info
    return 'ok', info


def proj_dual(ud, A, b):
    """(closest point, multipliers of the original rows) or None"""
    A, b = np.asarray(A, float).reshape(-1, ud.size), np.asarray(b, float)
    nr = np.linalg.norm(A, axis=1)
    z = nr < 1e-13
    if np.any(b[z] > 1e-13):
        return None
    lam = np.zeros(len(b))
    if np.all(z):
        return ud.copy(), lam
    try:
        r = quadprog.solve_qp(np.eye(ud.size), ud.astype(float), (A[~z] / nr[~z, None]).T.copy(), (b[~z] / nr[~z]).copy(), 0)
    except ValueError:
        return None
    lam[~z] = r[4] / nr[~z]
    return r[0], lam


def soft_min(ud, A, b, soft, tiny=1e-9):
    """control satisfying the hard rows that minimises the sum over soft groups of (violation)^2 (then distance to ud with weight tiny).
    soft: per row -1 (hard) or the index of its slack group. returns (u, violations per group) or None when the hard rows are infeasible"""
    A, b, soft = np.asarray(A, float).reshape(-1, ud.size), np.asarray(b, float), np.asarray(soft)
    ng, m = int(soft.max()) + 1, ud.size
    G = np.eye(m + ng)
    G[:m, :m] *= tiny
    E = np.zeros((len(b), ng))
    for i, s in enumerate(soft):
        if s >= 0:
            E[i, s] = 1.
    AA = np.hstack([A, E])
    nr = np.linalg.norm(AA, axis=1)
    z = nr < 1e-13
    if np.any(b[z] > 1e-13):
        return None
    try:
        r = quadprog.solve_qp(G, np.r_[tiny * ud, np.zeros(ng)], (AA[~z] / nr[~z, None]).T.copy(), (b[~z] / nr[~z]).copy(), 0)
    except ValueError:
        return None
    return r[0][:m], group_viol(r[0][:m], A, b, soft)


def group_viol(u, A, b, soft):
    v = np.maximum(0, b - A @ u)
    return np.array([max([0.] + [v[i] for i in range(len(b)) if soft[i] == k]) for k in range(int(soft.max()) + 1)])

"""P18 closed-loop safety of the zoo filters under adversarial desired controls"""
import warnings
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R

RULE = 'distinct closed-loop states (filter, state, step) reached under filtered control whose safe-set margins were evaluated by the reference constraints'
ASSUMPTIONS = ['the plant is the exact zero-order-hold solution of the documented dynamics', 'initial states have every constraint value and phi non-negative (implicit filters: also along the backup trajectory)',
               'tolerances cover what a sampled-data barrier can lose within one step (they shrink with the step size)']
REQUIRE = {'episodes': 150, 'steps': 40000, 'interventions': 20000, 'near_boundary': 15000, 'simplex_switch': 5000}

# (family, kind, step size, per-constraint tolerance, default tolerance, steps, episodes)
CONF = [
    ('docking2', 'esimplex', 1.0, {'rel_vel': 0.08}, 0.01, 300, 6), ('docking3', 'esimplex', 1.0, {'rel_vel': 0.08}, 0.01, 300, 6),
    ('docking2', 'isimplex', 1.0, {'rel_vel': 0.08}, 0.01, 200, 3), ('docking3', 'isimplex', 1.0, {'rel_vel': 0.08}, 0.01, 150, 3),
    ('docking2', 'easif', 1.0, {'rel_vel': 0.15}, 0.01, 400, 6), ('docking3', 'easif', 1.0, {'rel_vel': 0.15}, 0.01, 400, 6),
    ('docking2', 'easif', 0.25, {'rel_vel': 0.01}, 1e-3, 500, 5), ('docking3', 'easif', 0.25, {'rel_vel': 0.01}, 1e-3, 500, 5),
    ('insp1', 'easif', 1.0, {'rel_vel': 0.12, 'r_max': 0.08}, 2e-3, 400, 8), ('insp1', 'easif', 0.25, {'rel_vel': 0.005}, 1e-3, 400, 6),
    ('insp1', 'dasif', 1.0, {'rel_vel': 0.02, 'r_max': 0.02}, 2e-3, 120, 6),
    ('insp1', 'dasif', 5.0, {'r_max': 0.05}, 5e-3, 60, 4), ('insp1', 'dasif', 3.0, {'r_max': 0.05}, 5e-3, 60, 4),
    ('inspn2', 'easif', 1.0, {'rel_vel': 0.3, 'r_max': 0.08}, 5e-3, 120, 4),
    ('integrator', 'esimplex', 0.1, {}, 0.02, 200, 10), ('integrator', 'esimplex', 0.02, {}, 0.001, 300, 8),
    ('integrator', 'isimplex', 0.1, {}, 0.02, 150, 5),
    ('integrator', 'easif', 0.05, {}, 0.02, 300, 10),
]


def cases(tier, seed):
    out = []
    for r in range(4 if tier == 'quick' else 40):
        for i, c in enumerate(CONF):
            slow = c[1] in ('isimplex', 'dasif')
            out.append(dict(fam=c[0], kind=c[1], dt=c[2], conf=i, steps=c[5], eps=c[6], seed=case_seed(seed, 'p18', i, r), w=30 if slow else 12 if c[0].startswith('insp') else 5))
    return out


def plant(s):
    """exact step of the documented (affine) dynamics under constant control"""
    f0 = s.f(np.zeros(s.nx))
    A = np.zeros((s.nx + 1, s.nx + 1))
    A[:s.nx, :s.nx] = np.stack([s.f(e) - f0 for e in np.eye(s.nx)], axis=1)
    A[:s.nx, s.nx] = f0
    B = np.vstack([s.g(np.zeros(s.nx)), np.zeros((1, s.nu))])
    cache = {}

    def step(x, dt, u):
        if dt not in cache:
            cache[dt] = R.zoh(A, B, dt)
        Ad, Bd = cache[dt]
        return (Ad @ np.r_[x, 1.] + Bd @ u)[:s.nx]
    return step


def start(s, rng, dt, kind):
    for _ in range(800):
        x = s.draw(rng)
        if rng.random() < 0.5 and s.nx <= 6 and s.nx > 2:   # docking: put it next to the speed limit
            k = s.nx // 2
            c = s.cons['rel_vel']
            p = x[:k]
            vm = float(c.phi(np.concatenate([p, np.zeros(k)])))
            v = rng.normal(size=k)
            x = np.concatenate([p, v / np.linalg.norm(v) * vm * rng.uniform(0.8, 1.0)])
        if not all(c.h(x) >= 0 and c.phi(x) >= 0 for c in s.cons.values()):
            continue
        if s.nx == 2:
            if x[0] > -0.3 or abs(x[1]) > 4:
                continue
            if kind in ('isimplex',) and x[1] > 0 and x[1]**2 / 2 > 0.9 * -x[0]:
                continue
        return x
    return None


def adversary(rng, s):
    mode = int(rng.integers(7))
    names = list(s.cons)
    tgt = names[int(rng.integers(len(names)))]
    vec = rng.normal(size=s.nu)
    G = s.g(np.zeros(s.nx))

    def f(x, t):
        if mode == 0:
            return rng.choice([-1., 1.], s.nu)
        if mode in (1, 3):
            c = s.cons[tgt] if mode == 1 else min(s.cons.values(), key=lambda c: c.h(x))
            g = c.grad(x) @ G
            return -np.sign(g) if np.linalg.norm(g) > 1e-12 else rng.choice([-1., 1.], s.nu)
        if mode == 2:
            return np.sign(vec)
        if mode == 4:
            return -x[:s.nu] / max(np.abs(x[:s.nu]).max(), 1e-9) if vec[0] > 0 else -np.sign(x[:s.nu])
        if mode == 5:
            return np.sin(t * 0.05 + vec) * 2
        return np.sign(x[s.nu:2 * s.nu]) if s.nu > 1 else np.ones(1)   # speed up
    return mode, f


def run_case(case, obs, worst=None):
    rng = np.random.default_rng(case['seed'])
    fam, kind, dt = case['fam'], case['kind'], case['dt']
    _, _, _, tols, deftol, _, _ = CONF[case['conf']]
    s = lib.mk(dict(fam=fam, kind=kind))
    mod = obs.call('constructor', s.build)
    step = plant(s)
    # an ASIF that reports failure (the documented constraints can conflict) is judged until then
    until_failure = kind.endswith('asif')
    for e in range(case['eps']):
        x = start(s, rng, dt, kind)
        if x is None:
            obs.n('no_start')
            continue
        obs.call('reset', mod.reset)
        mode, adv = adversary(rng, s)
        x0, log = x, []
        obs.n('episodes')
        for k in range(case['steps']):
            ud = adv(x, k)
            if fam == 'integrator' and kind == 'isimplex' and x[1] > 4:
                break   # cannot stop within the backup window: outside what an implicit filter promises
            with warnings.catch_warnings(record=True) as w:
                warnings.simplefilter('always')
                u = np.asarray(obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud)), float)
            if any(issubclass(i.category, UserWarning) and 'olver' in str(i.message) for i in w):
                obs.n('solver_failures')
                if until_failure:
                    break
            if mod.intervening:
                obs.n('interventions')
                if kind.endswith('simplex'):
                    obs.n('simplex_switch')
            log.append(u)
            x = step(x, dt, u)
            obs.n('steps')
            obs.judged((fam, kind, dt, x))
            for n, c in s.cons.items():
                p = float(c.phi(x))
                tol = tols.get(n, deftol)
                if mode != 5 and kind.endswith('simplex') and fam.startswith('docking'):
                    tol = 0.003   # a desired control within the bounds is exactly what the simplex predicted
                if worst is not None and p < worst.get((fam, kind, dt, n, mode == 5), (9e9,))[0]:
                    worst[(fam, kind, dt, n, mode == 5)] = (p, e, k, mode)
                if c.h(x) < 0.05:
                    obs.n('near_boundary')
                if not p >= -tol:
                    obs.violate(f'{fam} {kind} (dt {dt}): constraint {n} has margin {p:.6g} at step {k + 1} of a closed loop started at a safe state', x0=x0, state=x, step=k, margin=p, tolerance=tol,
                                adversary=mode, desired=ud, control=u, controls=log[-5:])
                    if worst is None:
                        break
            else:
                continue
            break
    obs.sample(case=case, x=x, u=u)

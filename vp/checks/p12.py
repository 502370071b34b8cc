"""P12 reset equals fresh; no hidden memory"""
import numpy as np
from vp.core import case_seed
from vp import lib, mods, ref as R
from vp.sut import jnp, UBackup, RTABackupController, SYS, user_scn, z1, zn

RULE = 'distinct (module, history, probe position) where the module after reset (or after an arbitrary unlatched history) was compared with a newly built one'
ASSUMPTIONS = ['constraint parameters changed by the user are settings, not history, and are not changed here', 'constraint values reported before the first call after a reset are not compared']
REQUIRE = {'reset_probes': 400, 'memory_probes': 300, 'reset_while_latched': 8, 'reset_while_disabled': 15, 'reset_after_exception': 4, 'reset_after_intervening': 20, 'probe_intervening': 100, 'near_probe_in_history': 60, 'member_toggled': 5}


class Integ(RTABackupController):
    """stateful backup law: integrates the first state component"""

    def __init__(self, nu):
        self.nu = nu
        super().__init__(controller_state_initial=jnp.zeros(1), jit_enable=False)

    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.ones(self.nu) * (-0.3 * state[0] - 0.2 * controller_state[0]), controller_state + step_size * state[0:1]


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 4):
        for i, sp in enumerate(mods.all_specs(case_seed(seed, 'p12', r))):
            if tier == 'quick' and sp['fam'] == 'user' and (i + seed) % 2:
                continue
            heavy = sp['fam'].startswith(('insp', 'ica', 'comb'))
            rounds = (3 if heavy else 5) * (1 if tier == 'quick' else 3)
            out.append(dict(mode='reset', spec=sp, seed=case_seed(seed, 'p12r', i, r), rounds=rounds, w=9 if heavy else 3))
            if sp['fam'] not in ('deltav', 'icascade'):
                out.append(dict(mode='memory', spec=sp, seed=case_seed(seed, 'p12m', i, r), rounds=rounds * 3, w=8 if heavy else 2))
        for j, kind in enumerate(['esimplex', 'isimplex', 'iasif']):
            out.append(dict(mode='stateful', kind=kind, seed=case_seed(seed, 'p12s', kind, r), rounds=5 if tier == 'quick' else 15, w=4))
    out.append(dict(mode='short', which='insp1', seed=case_seed(seed, 'short1'), w=5))
    out.append(dict(mode='short', which='inspn2', seed=case_seed(seed, 'short2'), w=6))
    return out


def run_case(case, obs):
    globals()['run_' + case['mode']](case, obs)


def snap(obs, mod, x, dt, ud):
    u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud)
    if raised:
        return dict(raised=True, intervening=None, u=None)
    d = dict(u=np.asarray(u, float), raised=raised, warned=bool(warned), intervening=bool(mod.intervening), enable=bool(mod.enable))
    d['desired'], d['actual'] = np.asarray(mod.control_desired, float), np.asarray(mod.control_actual, float)
    cv = getattr(mod, 'constraint_values', None)
    if cv is not None:
        d['values'] = {k: float(v) for k, v in cv.items()}
    cc = getattr(mod, 'constraints_causing_intervention', None)
    if cc is not None and not warned:
        d['causing'] = sorted(cc)
    info = mod.generate_info()
    d['info_keys'] = sorted(info)
    return d


def differ(a, b, tol=1e-9):
    for k in a:
        if k not in b:
            return k
        x, y = a[k], b[k]
        if isinstance(x, np.ndarray):
            if not isinstance(y, np.ndarray) or x.shape != y.shape or not np.allclose(x, y, rtol=tol, atol=tol):
                return k
        elif isinstance(y, np.ndarray):
            return k
        elif k == 'values':
            if set(x) != set(y) or any(not (abs(x[n] - y[n]) <= tol * (1 + abs(y[n])) or (np.isnan(x[n]) and np.isnan(y[n]))) for n in x):
                return k
        elif x != y:
            return k
    return None


def kwargs_for(m, rng):
    kw = {}
    if m.kind in ('esimplex', 'isimplex'):
        kw['latch_time'] = float(rng.choice([0, 3 * m.dts[0], 6.5 * m.dts[0]]))
    if m.kind in ('easif', 'iasif', 'dasif'):
        kw['solver_exception'] = bool(rng.integers(2))
    return kw


def history(obs, m, mod, rng, n, allow_disable=True, bad=True, pool=()):
    """an eventful past"""
    ev = set()
    for _ in range(n):
        if allow_disable and rng.random() < 0.12:
            mod.enable = not mod.enable
        if allow_disable and hasattr(mod, 'rta_list') and rng.random() < 0.3:
            r = mod.rta_list[int(rng.integers(len(mod.rta_list)))]
            r.enable = not r.enable
            ev.add('member_toggled')
            obs.n('member_toggled')
        if bad and rng.random() < 0.06:
            try:
                mod.filter_control(None if 'inspection' in m.name else np.zeros(1), m.dts[0], np.zeros(m.nu))
            except Exception:
                ev.add('exception')
        x, dt = m.draw(rng), float(rng.choice(m.dts))
        ud = lib.wild_u(rng, m) if rng.random() < 0.3 else m.draw_u(rng)
        if m.kind == 'dasif':
            ud = np.clip(ud, -10, 10)
        if pool and rng.random() < 0.4:     # the probed state with another desired control or step size
            x, dt2, ud2 = pool[int(rng.integers(len(pool)))]
            t = rng.integers(3)
            dt, ud = (dt, ud2) if t == 0 else (dt2, ud) if t == 1 else (dt, ud)
            obs.n('probe_state_in_history')
        _, raised, warned = lib.filter_qp(obs, mod, x, dt, ud, rng)
        if raised:
            ev.add('exception')
        if hasattr(mod, 'update_constraint_values') and rng.random() < 0.2:
            mod.update_constraint_values(m.draw(rng))
    return ev


def run_reset(case, obs):
    rng = np.random.default_rng(case['seed'])
    m = mods.gmk(case['spec'])
    kw = kwargs_for(m, rng)
    mod = obs.call('constructor', m.build, **kw)
    for r in range(case['rounds']):
        ev = history(obs, m, mod, rng, int(rng.integers(1, 9)), bad=m.kind not in ('cascade', 'combined'))
        if not mod.enable:
            obs.n('reset_while_disabled')
        if mod.intervening:
            obs.n('reset_after_intervening')
            if kw.get('latch_time') or m.kind in ('deltav',):
                obs.n('reset_while_latched')
        if 'exception' in ev:
            obs.n('reset_after_exception')
        obs.call('reset', mod.reset)
        fresh = obs.call('constructor', m.build, **kw)
        if bool(mod.enable) is not True or mod.intervening or mod.control_desired is not None or mod.control_actual is not None:
            obs.violate(f'{m.name}: after reset enable={mod.enable} intervening={mod.intervening} desired={mod.control_desired} actual={mod.control_actual}')
        for j in range(int(rng.integers(3, 9))):
            x, dt, ud = m.draw(rng), float(rng.choice(m.dts)), m.draw_u(rng)
            a, b = snap(obs, mod, x, dt, ud), snap(obs, fresh, x, dt, ud)
            obs.n('reset_probes')
            if b['intervening']:
                obs.n('probe_intervening')
            obs.judged((m.name, 'reset', case['seed'], r, j))
            k = differ(a, b)
            if k:
                obs.violate(f'{m.name}: probe {j} after reset: {k} is {a[k]}, a new module gives {b.get(k)}', module=m.name, settings=kw, state=x, dt=dt, desired=ud, after_reset=a, fresh=b)
                break
        obs.sample(module=m.name, settings=kw, last_probe=dict(state=x, dt=dt, desired=ud, returned=a['u'], fresh=b['u']))


def run_memory(case, obs):
    rng = np.random.default_rng(case['seed'])
    m = mods.gmk(case['spec'])
    kw = {'solver_exception': bool(rng.integers(2))} if m.kind in ('easif', 'iasif', 'dasif') else {}
    mod = obs.call('constructor', m.build, **kw)
    probes = []
    for _ in range(4):
        probes.append((m.draw(rng), float(rng.choice(m.dts)), m.draw_u(rng)))
    base = []
    fresh = obs.call('constructor', m.build, **kw)
    for p in probes:
        base.append(snap(obs, fresh, *p))
        if m.kind in ('esimplex', 'isimplex', 'combined', 'cascade') and len(base) < 3:
            fresh = obs.call('constructor', m.build, **kw)
    for r in range(case['rounds']):
        n = int(rng.integers(0, 5))
        if r == case['rounds'] - 1 and m.kind not in ('cascade', 'combined', 'dasif') and not m.name.startswith('zoo.insp'):
            n = 130
            obs.n('long_history')
        ev = history(obs, m, mod, rng, n, allow_disable=m.kind not in ('cascade', 'combined'), bad=m.kind not in ('cascade', 'combined'), pool=probes)
        mod.enable = True
        i = int(rng.integers(len(probes)))
        if rng.random() < 0.4:      # the last call before the probe: almost the probed state
            x, dt, ud = probes[i]
            lib.filter_qp(obs, mod, x * (1 + 4e-6 * rng.normal(size=x.shape)), dt, ud if rng.random() < 0.5 else m.draw_u(rng), rng)
            obs.n('near_probe_in_history')
        a = snap(obs, mod, *probes[i])
        obs.n('memory_probes')
        if a['intervening']:
            obs.n('probe_intervening')
        obs.judged((m.name, 'memory', case['seed'], r, i))
        k = differ(a, base[i])
        if k:
            obs.violate(f'{m.name}: same call gives {k}={a[k]} after other calls, {base[i].get(k)} on a new module', module=m.name, state=probes[i][0], dt=probes[i][1], desired=probes[i][2], now=a, first=base[i])
            break


def run_stateful(case, obs):
    """reset with a stateful backup controller"""
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    for r in range(case['rounds']):
        sysn = lib.USYS[int(rng.integers(len(lib.USYS)))]
        s = user_scn(kind, sysn, int(rng.integers(1 << 30)), -1., 1., window=0.3 if kind[0] == 'i' else None)
        nu = SYS[sysn].nu
        kw = dict(jit_enable=False)
        if 'simplex' in kind:
            kw['latch_time'] = float(rng.choice([0, 0.3, 1.0]))
        mod = obs.call('constructor', s.build, backup=Integ(nu), **kw)
        m = mods.M(s.name, s.build, s.draw, nu, -1, 1, [0.1], kind=kind)
        history(obs, m, mod, rng, 5, bad=False)
        if mod.intervening and kw.get('latch_time'):
            obs.n('reset_while_latched')
        obs.call('reset', mod.reset)
        fresh = obs.call('constructor', s.build, backup=Integ(nu), **kw)
        for j in range(5):
            x, ud = s.draw(rng), s.draw_u(rng)
            a, b = snap(obs, mod, x, 0.1, ud), snap(obs, fresh, x, 0.1, ud)
            obs.n('reset_probes')
            obs.n('stateful_probes')
            obs.judged((s.name, 'stateful', case['seed'], r, j))
            k = differ(a, b)
            if k:
                obs.violate(f'{s.name} (stateful backup): probe {j} after reset: {k} is {a[k]}, a new module gives {b.get(k)}', settings=kw, state=x, desired=ud)
                break


def run_short(case, obs):
    """states passed without the sun angle (accepted and padded by the inspection filters)"""
    rng = np.random.default_rng(case['seed'])
    s = lib.mk(dict(fam=case['which'], kind='easif'))
    cut = 6 if case['which'] == 'insp1' else 12
    bad = None
    for t in range(3):
        a, b = s.build(), s.build()
        x, ud, y = s.draw(rng), s.draw_u(rng), s.draw(rng)
        obs.call('short state', b.filter_control, y[:cut], 1.0, ud)
        b.reset()
        for _ in range(15):
            x, ud = s.draw(rng), s.draw_u(rng) * 3
            p, q = snap(obs, a, x, 1.0, ud), snap(obs, b, x, 1.0, ud)
            obs.n('short_state_probes')
            obs.judged()
            k = differ(p, q)
            if k:
                bad = (k, p, q, x, ud)
                break
    if bad:
        obs.known.append(dict(key='inspection-short-state-sun-speed', what=f'{s.name}: one call with a state without sun angle changes later results: {bad[0]} {bad[1][bad[0]]} vs {bad[2][bad[0]]}', case=case, detail={}))

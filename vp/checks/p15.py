"""P15 predictions never disturb a stateful backup controller"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import user_scn, SYS, RTABackupController, jnp, jac_num

RULE = 'distinct (module, controller form, call) after which the controller state was compared with the reference automaton (advance once per returned backup control, never otherwise)'
ASSUMPTIONS = ['stateful controllers are not jit compiled (documented); the module around them may be', 'controllers that update a dict state in place are used with simplex modules only (the implicit ASIF traces the controller)']
REQUIRE = {'advanced': 250, 'not_advanced': 180, 'decided_by_state': 10, 'resets': 50, 'jacobians': 80, 'latched': 60, 'disabled': 40, 'iasif_rows_judged': 60, 'caller_changed_its_object': 3}


def raw_law(xp, sys_, ki, x, z):
    """gain and offset both depend on the controller state, so its Jacobian does too"""
    return sys_.k(xp, x) * (1 + 0.3 * xp.tanh(3 * xp.sum(z))) - ki * z


class Stateful(RTABackupController):
    """PI law with a leaky integral and a step counter; form: array, dict, inplace"""

    def __init__(self, sys_, form, ki, init, log, **kw):
        self.sys_, self.form, self.ki, self.log = sys_, form, ki, log
        super().__init__(controller_state_initial=init, **kw)

    def _generate_control(self, state, step_size, controller_state=None):
        z, n = (controller_state['z'], controller_state['n']) if self.form != 'array' else (controller_state[:-1], controller_state[-1])
        u = raw_law(jnp, self.sys_, self.ki, state, z)
        z2 = 0.95 * z + step_size * state[:self.sys_.nu]
        self.log.append(1)
        if self.form == 'array':
            return u, jnp.concatenate([z2, jnp.array([n + 1.])])
        if self.form == 'inplace':
            controller_state['z'] = z2
            controller_state['n'] = n + 1
            return u, controller_state
        return u, {'z': z2, 'n': n + 1}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 6
    N = 60 if tier == 'quick' else 150
    for r in range(k):
        for i, sysn in enumerate(['di1', 'di2', 'pend', 'full2']):
            for form in ('array', 'dict', 'inplace'):
                for kind in ('esimplex', 'isimplex', 'iasif'):
                    if kind == 'iasif' and form == 'inplace':
                        continue
                    out.append(dict(sys=sysn, form=form, kind=kind, jit=bool((i + r + len(form)) % 2), n=N if kind != 'iasif' else N // 2, seed=case_seed(seed, 'p15', i, form, kind, r), w=6 if kind[0] == 'i' else 2,
                                    latch=[0, 0.25, 0][(i + r) % 3] if kind != 'iasif' else 0))
    # windows of one step or less
    for r in range(k):
        for i, (kind, form, w) in enumerate([('isimplex', 'dict', 0.05), ('isimplex', 'array', 0.1), ('iasif', 'array', 0.1), ('iasif', 'dict', 0.05), ('iasif', 'array', 0.04), ('isimplex', 'inplace', 0.04)]):
            out.append(dict(sys=['di1', 'full2'][i % 2], form=form, kind=kind, jit=bool((i + r) % 2), n=30, seed=case_seed(seed, 'p15w', i, r), w=3, latch=0, window=w))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    S = SYS[case['sys']]
    form, kind = case['form'], case['kind']
    lo, hi = (-1.2 * np.ones(S.nu), 1.0 * np.ones(S.nu)) if rng.random() < 0.7 else (None, None)
    window = float(case.get('window') or rng.choice([0.4, 0.7])) if kind != 'esimplex' else None
    s = user_scn(kind, case['sys'], case_seed(case['seed'], 'c'), lo, hi, window=window)
    ki = float(rng.uniform(0.5, 2.5))
    z0 = rng.uniform(-0.5, 0.5, S.nu)
    init = jnp.array(np.r_[z0, 0.]) if form == 'array' else {'z': jnp.array(z0), 'n': jnp.array(0.)}
    keep = np.array(init) if form == 'array' else {a: np.array(b) for a, b in init.items()}
    mine = init if form == 'array' else dict(init)
    log = []
    ctl = Stateful(S, form, ki, init, log, jit_enable=False)
    kw = dict(backup=ctl, jit_enable=case['jit'])
    if kind != 'iasif':
        kw['latch_time'] = case['latch']
    if kind == 'iasif':
        kw['jaxpred'] = True
    mod = obs.call('constructor', s.build, **kw)

    if form != 'array' and rng.random() < 0.5:
        # the caller goes on to use its dictionary for something else
        init['z'] = init['z'] + 3.
        keep = {a: np.array(b) for a, b in init.items()}
        obs.n('caller_changed_its_object')

    def law(x, z):
        return R.clip(np.asarray(raw_law(np, S, ki, x, z), float), lo, hi)

    def adv(x, z, dt):
        return 0.95 * z + dt * x[:S.nu]
    z, n = z0.copy(), 0
    cur = {}

    def straj(x, dt, ud):
        y = s.pred(np.asarray(x, float), dt, np.asarray(ud, float))
        out, zz = [y], cur['z']
        if kind == 'isimplex':
            for _ in range(lib.n_steps(window, dt)):
                u = law(y, zz)
                zz = adv(y, zz, dt)
                y = s.pred(y, dt, u)
                out.append(y)
        return out

    def btraj(x, dt):
        y, zz, D = np.asarray(x, float), cur['z'], np.eye(S.nx)
        tr, se = [y], [D]
        for _ in range(lib.n_steps(window, dt)):
            u = law(y, zz)
            zz = adv(y, zz, dt)
            y = s.pred(y, dt, u)
            # the controller state after this step is held while differentiating
            J = jac_num(lambda q: S.f(np, q) + np.asarray(S.g(np, q)) @ raw_law(np, S, ki, q, zz), y)
            D = D + (J @ D) * dt
            tr.append(y)
            se.append(D)
        return tr, se
    s.simplex_traj_fn, s.backup_traj_fn = straj, btraj

    def cstate():
        c = mod.backup_controller.controller_state
        if c is None or (form == 'array') == isinstance(c, dict) or (np.shape(c) != np.shape(init) if form == 'array' else {a: np.shape(b) for a, b in c.items()} != {a: np.shape(b) for a, b in init.items()}):
            obs.violate(f'{s.name}/{form}: the controller state became {c}, of another form than the initial {init}', form=form)
            obs_stop()
        return (np.asarray(c[:-1], float), float(c[-1])) if form == 'array' else (np.asarray(c['z'], float), float(c['n']))

    def check(what, x, ud, u, det):
        zz, nn = cstate()
        if nn != n or not lib.same(zz, z, 1e-8):
            obs.violate(f'{s.name}/{form}: after {what} the controller state is {zz} (step {nn:g}) instead of {z} (step {n})', controller=zz, steps=nn, expected=z, expected_steps=n, **det)
            obs_stop()
        now = np.array(init) if form == 'array' else {a: np.array(b) for a, b in init.items()}
        same = np.array_equal(now, keep) if form == 'array' else (set(now) == set(keep) and all(np.array_equal(now[a], keep[a]) for a in keep))
        if not same:
            obs.violate(f"{s.name}/{form}: the caller's initial controller state was modified to {now}", **det)
            obs_stop()

    def obs_stop():
        from vp.core import Stop
        raise Stop()
    latch_left, latched_t, interv = False, 0., False
    for i in range(case['n']):
        ev = rng.random()
        det0 = dict(step=i, form=form, kind=kind, jit=case['jit'])
        if ev < 0.06:
            obs.call('reset', mod.reset)
            z, n, interv, latched_t = z0.copy(), 0, False, 0.
            obs.n('resets')
            check('reset', None, None, None, det0)
        if ev > 0.97:
            obs.call('reset_backup_controller', mod.reset_backup_controller)
            z, n = z0.copy(), 0
            obs.n('resets')
            check('reset_backup_controller', None, None, None, det0)
        x, dt, ud = s.draw(rng), float(rng.choice([0.1, 0.05])), s.draw_u(rng)
        cur['z'] = z
        if rng.random() < 0.5 and kind != 'iasif':
            lib.tune_simplex(s, mod, rng, x, dt, ud)
        if form != 'inplace' and rng.random() < 0.2:
            J = obs.call('backup_controller.jacobian', mod.backup_controller.jacobian, jnp.array(x), dt)
            want = jac_num(lambda q: raw_law(np, S, ki, q, z), x)
            obs.n('jacobians')
            if not lib.same(J, want, 1e-8):
                obs.violate(f'{s.name}/{form}: controller jacobian {J} instead of {want}', **det0)
            check('jacobian', x, ud, None, det0)
            uu, cs = obs.call('generate_control_with_controller_state', mod.backup_controller.generate_control_with_controller_state, jnp.array(x), dt,
                              mine if form == 'array' else dict(mine))
            if not lib.same(uu, np.asarray(raw_law(np, S, ki, x, z0), float), 1e-8):
                obs.violate(f'{s.name}/{form}: control for a given controller state is {uu}', **det0)
            check('generate_control_with_controller_state', x, ud, None, det0)
        if rng.random() < 0.08:
            mod.enable = False
            u = obs.call('filter_control', mod.filter_control, np.array(x), dt, np.array(ud))
            mod.enable = True
            interv, latched_t = False, 0.
            obs.n('disabled')
            check('a disabled call', x, ud, u, dict(det0, state=x))
            continue
        log.clear()
        det = dict(det0, state=x, dt=dt, desired=ud, controller_before=z)
        if kind == 'iasif':
            u, v, q = lib.check_qp(obs, s, mod, x, dt, ud)
            obs.n('predictions_spied', len(log))
            if v == 'ok':
                obs.n('iasif_rows_judged')
                obs.n('not_advanced')
            check('filter_control', x, ud, u, det)
            obs.judged((s.name, form, i, case['seed']))
            continue
        # simplex automaton
        latched = False
        if interv and latched_t < case['latch'] - 1e-9:
            latched_t += dt
            latched = True
        else:
            latched_t = 0.
        if latched:
            dec = True
            obs.n('latched')
        else:
            dec = lib.simplex_decide(s, x, dt, ud, 1e-11)[0]
        if dec is not None and kind == 'isimplex' and not latched:
            cur['z'] = z0
            alt = lib.simplex_decide(s, x, dt, ud, 1e-11)[0]
            cur['z'] = z
            if alt is not None and alt != dec:
                obs.n('decided_by_state')
        u = obs.call('filter_control', mod.filter_control, lib.as_in(rng, x), dt, np.array(ud))
        obs.n('predictions_spied', len(log))
        if dec is None:
            obs.n('ambiguous')
            mod.reset()
            z, n, interv, latched_t = z0.copy(), 0, False, 0.
            continue
        want = law(x, z) if dec else R.clip(ud, lo, hi)
        det.update(returned=u, expected=want, decision=dec)
        if not lib.same(u, want, 1e-8) or bool(mod.intervening) != dec:
            obs.violate(f'{s.name}/{form}: decision {dec} from controller state {z}: returned {u} (intervening={mod.intervening}), expected {want}', **det)
            obs_stop()
        if dec:
            z, n = adv(x, z, dt), n + 1
            obs.n('advanced')
        else:
            obs.n('not_advanced')
        interv = dec
        check('filter_control', x, ud, u, det)
        obs.judged((s.name, form, i, case['seed']))
        if dec:
            obs.sample(**det)

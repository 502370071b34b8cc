"""P02 caller data untouched, recorded controls, disabled passthrough"""
import numpy as np
from vp.core import case_seed
from vp import lib, mods
from vp.sut import jnp

RULE = 'distinct (module, enabled flag, array kind, step in history) calls whose inputs, returned and recorded arrays were compared byte by byte before and after, with the caller overwriting everything it received'
ASSUMPTIONS = ['the library state wrapper is exercised by P25; here states and controls are plain numpy or jax arrays of float dtype']
REQUIRE = {'enabled_calls': 400, 'disabled_calls': 250, 'disabled_outside_bounds': 20, 'overwritten': 400, 'read_only_inputs': 80, 'disabled_after_intervening': 25, 'integer_desired': 20, 'jax_desired': 30, 'read_only_views': 30}


def cases(tier, seed):
    out = []
    for r in range(1 if tier == 'quick' else 4):
        for i, sp in enumerate(mods.all_specs(case_seed(seed, r))):
            if tier == 'quick' and sp['fam'] == 'user' and (i + seed) % 2:
                continue
            out.append(dict(spec=sp, seed=case_seed(seed, 'p02', i, r), n=26 if tier == 'quick' else 80, x64=(i % 5 != 0), w=8 if sp['fam'].startswith(('insp', 'ica', 'comb')) else 2))
    return out


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    m = mods.gmk(case['spec'])
    kw = {}
    if m.kind in ('esimplex', 'isimplex') and case['seed'] % 2:
        kw['latch_time'] = 2 * m.dts[0]
    mod = obs.call('constructor', m.build, **kw)
    twin = obs.call('constructor', m.build, **kw)   # same calls, but its caller never touches what it gets back
    x64 = case.get('x64', True)
    L = None if m.lo is None else np.broadcast_to(np.asarray(m.lo, float), (m.nu,))
    prev = False
    # plan: enabled / disabled stretches, re-enabled by attribute or reset
    for i in range(case['n']):
        if rng.random() < 0.3:
            en = not mod.enable
            mod.enable = en
            twin.enable = en
        if rng.random() < 0.04:
            obs.call('reset', mod.reset)
            obs.call('reset', twin.reset)
            if mod.enable is not True:
                obs.violate(f'{m.name}: not enabled after reset')
        x, dt = m.draw(rng), float(rng.choice(m.dts))
        ud = lib.wild_u(rng, m) if rng.random() < 0.4 else m.draw_u(rng)
        form = int(rng.integers(0, 6))
        if form == 4:
            ud = np.round(np.clip(ud, -5, 5)).astype(int)
            obs.n('integer_desired')
        xs = jnp.array(x) if form == 1 else np.array(x)
        if form == 3:
            xs = np.array(x, dtype=np.float32) if not x64 else np.asfortranarray(np.stack([x, x])[0])
        us = np.array(ud) if form != 5 else jnp.array(ud)
        if form == 5:
            obs.n('jax_desired')
        if form == 2:
            xs, bx, bu = np.array(x), np.array(x), us
            if rng.random() < 0.5:      # read-only views of buffers the caller goes on to overwrite
                xs, us = bx.view(), bu.view()
                obs.n('read_only_views')
            else:
                bx, bu, us = None, None, us.copy()
            xs.setflags(write=False)
            us.setflags(write=False)
            obs.n('read_only_inputs')
        x0, u0 = np.array(xs, copy=True), np.array(us, copy=True)
        en = bool(mod.enable)
        was = bool(mod.intervening)
        u, raised, _ = lib.filter_qp_raw(obs, mod, xs, dt, us)
        ut, _, _ = lib.filter_qp_raw(obs, twin, np.array(xs, copy=True) if form != 1 else jnp.array(x), dt, us.copy() if form != 5 else jnp.array(ud))
        det = dict(module=m.name, step=i, enabled=en, state=x0, dt=dt, desired=u0, returned=np.array(u), recorded_desired=mod.control_desired, recorded_actual=mod.control_actual, intervening=mod.intervening)
        obs.judged((m.name, en, form, i, case['seed']))
        obs.n('enabled_calls' if en else 'disabled_calls')
        if not (np.array_equal(np.asarray(xs), x0) and np.asarray(xs).dtype == x0.dtype):
            obs.violate(f'{m.name}: filtering changed the caller\'s state array', after=np.array(xs), **det)
        if not np.array_equal(np.asarray(us), u0):
            obs.violate(f'{m.name}: filtering changed the caller\'s desired control', after=us, **det)
        if not isinstance(u, np.ndarray):
            obs.violate(f'{m.name}: returned {type(u).__name__}, not a numpy array', **det)
        if not np.array_equal(np.asarray(u), np.asarray(ut)):
            obs.violate(f'{m.name}: result {np.asarray(u)} depends on arrays the caller overwrote earlier (untouched twin returns {np.asarray(ut)})', **det)
        if bool(mod.intervening) != bool(twin.intervening):
            obs.violate(f'{m.name}: intervening flag depends on overwritten arrays', **det)
        if mod.control_desired is None or not np.array_equal(np.asarray(mod.control_desired), u0):
            obs.violate(f'{m.name}: recorded desired control {mod.control_desired} is not the one passed in {u0}', **det)
        if mod.control_actual is None or not np.array_equal(np.asarray(mod.control_actual), np.asarray(u)):
            obs.violate(f'{m.name}: recorded actual control {mod.control_actual} is not the one returned {np.asarray(u)}', **det)
        if not en:
            if not (np.asarray(u).shape == u0.shape and np.asarray(u).tobytes() == u0.tobytes()):
                obs.violate(f'{m.name}: disabled module returned {np.asarray(u)} for desired {u0}', **det)
            if mod.intervening:
                obs.violate(f'{m.name}: disabled module reports intervening', **det)
            if was:
                obs.n('disabled_after_intervening')
            if L is not None and np.any(u0 < L):
                obs.n('disabled_outside_bounds')
        info = obs.call('generate_info', mod.generate_info)
        if not (np.array_equal(np.asarray(info['control_desired']), u0) and np.array_equal(np.asarray(info['control_actual']), np.asarray(u))):
            obs.violate(f'{m.name}: info controls differ from the call', info=info, **det)
        if bool(info['enable']) != en or bool(info['intervening']) != bool(mod.intervening):
            obs.violate(f'{m.name}: info flags wrong', info=info, **det)
        # the caller now overwrites everything it can reach
        keep_d, keep_a = np.array(mod.control_desired), np.array(mod.control_actual)
        u_w = u
        if isinstance(u_w, np.ndarray) and u_w.flags.writeable:
            u_w[...] = 77
            obs.n('overwritten')
        if form == 5:
            pass
        elif form == 2:
            if bu is not None:
                bu[...] = -55
                bx[...] = 99
        else:
            us[...] = -55
            if isinstance(xs, np.ndarray):
                xs[...] = 99
        if not np.array_equal(np.asarray(mod.control_actual), keep_a) or not np.array_equal(np.asarray(mod.control_desired), keep_d):
            obs.violate(f'{m.name}: overwriting the returned or passed arrays changed the recorded controls', **det)
        for a in (mod.control_actual, mod.control_desired):
            if isinstance(a, np.ndarray) and a.flags.writeable:
                if a is mod.control_actual:
                    a[...] = 33
                    if not np.array_equal(np.asarray(mod.control_desired), keep_d):
                        obs.violate(f'{m.name}: recorded actual and desired controls share storage', **det)
                else:
                    a[...] = 44
        if i == 2:
            obs.sample(**{k: v for k, v in det.items() if not k.startswith('recorded')})

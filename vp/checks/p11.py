"""P11 run-time changes of constraint parameters and enabled flags"""
import numpy as np
from vp.core import case_seed
from vp import lib, ref as R
from vp.sut import jnp, user_module, SYS, user_cons, user_scn
from vp.checks.p06 import make_direct

RULE = 'distinct (module, change, call) where a long-lived module was judged right after a run-time change against the reference description with the new values'
ASSUMPTIONS = ['parameters are changed through the constraint objects the module exposes (constraints / direct_inequality_constraints), in place or by replacing the dictionary, as documented',
               'solver failures of the discrete module on far desired controls are not judged']
REQUIRE = {'param_change': 300, 'enable_change': 200, 'direct_change': 8, 'all_disabled': 10, 'decision_depends_on_change': 30, 'vs_fresh_module': 30, 'constraints_to_use': 20, 'no_known_constraint_rejected': 8, 'replaced_dict': 30, 'discrete': 40, 'similar_names': 8}


def cases(tier, seed):
    out = []
    k = 1 if tier == 'quick' else 4
    n = 40 if tier == 'quick' else 140
    for r in range(k):
        for kind in ('esimplex', 'isimplex', 'easif', 'iasif', 'dasif'):
            for i, sysn in enumerate(lib.USYS):
                jit = (i + r) % 3 != 2
                d = dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'p11c', kind, i, r), bounds='var', bmag=1.5, bseed=case_seed(seed, i, kind, r), window=0.4 if kind[0] == 'i' else None)
                out.append(dict(mode='run', spec=d, seed=case_seed(seed, 'p11', kind, i, r), n=n if jit else n // 2, jit=jit, direct=kind in ('easif', 'iasif') and i % 2 == 0, w=3))
            for i, z in enumerate(lib.zoo_specs(kind)):
                heavy = z['fam'].startswith('insp')
                out.append(dict(mode='run', spec=z, seed=case_seed(seed, 'p11z', kind, i, r), n=n, jit=True, direct=False, w=9 if heavy else 3))
        for kind in ('esimplex', 'isimplex', 'easif', 'iasif', 'dasif'):
            out.append(dict(mode='use', kind=kind, seed=case_seed(seed, 'p11u', kind, r), n=6 if tier == 'quick' else 16, w=4))
    return out


def set_param(rng, mod, s, k, name, val, obs):
    if not np.isscalar(s.cons[k].params[name]):      # a vector: one component changes, in place or by a new vector
        arr = np.array(s.cons[k].params[name], float)
        arr[int(rng.integers(arr.size))] += float(rng.normal() * 0.3)
        s.cons[k].params[name] = arr
        cur = mod.constraints[k].params[name]
        obs.n('vector_param')
        if isinstance(cur, np.ndarray) and cur.flags.writeable and rng.random() < 0.5:
            cur[...] = arr
        else:
            mod.constraints[k].params[name] = arr.copy() if rng.random() < 0.5 else jnp.array(arr)
        return
    s.cons[k].params[name] = float(val)
    t = rng.integers(0, 5)
    v = [float(val), np.float64(val), jnp.asarray(val), float(val), float(val)][t]
    if t == 4:
        mod.constraints[k].params = dict(mod.constraints[k].params, **{name: v})
        obs.n('replaced_dict')
    else:
        mod.constraints[k].params[name] = v


def judge(obs, s, mod, x, dt, ud, rf, tag):
    if s.kind in ('esimplex', 'isimplex'):
        mod.reset()
        u, v = lib.check_simplex(obs, s, mod, x, dt, ud, lib.relerr(True, 'RK45'), 1e-9, tag=tag)
        return u, v is not None
    if s.kind == 'dasif':
        u, raised, warned = lib.filter_qp(obs, mod, x, dt, ud)
        if warned:
            obs.n('solver_failure')
            return u, False
        un = np.asarray(u, float)
        v = lib.disc_vals(s, x, dt, un)
        scale = 1 + max(abs(c.alpha(c.h(x))) + abs(c.h(x)) / dt for c in s.cons.values())
        det = dict(scenario=s.name, state=x, dt=dt, desired=ud, returned=un, params={k: c.params for k, c in s.cons.items()}, enabled={k: c.enabled for k, c in s.cons.items()})
        if v.size and v.min() < -3e-6 * scale:
            obs.violate(f'{s.name}: {tag}: enabled constraint violated by {-v.min():.4g}', **det)
        vd = lib.disc_vals(s, x, dt, ud)
        if np.all(R.clip(ud, s.lo, s.hi) == ud) and (vd.size == 0 or vd.min() > 3e-6 * scale) and np.linalg.norm(un - ud) > 1e-5 * (1 + np.linalg.norm(ud)):
            obs.violate(f'{s.name}: {tag}: desired control satisfies every enabled constraint but {un} was returned', **det)
        obs.n('discrete')
        obs.judged((s.name, tag, tuple(np.round(x, 5)), tuple(np.round(ud, 5))))
        return u, True
    u, v, q = lib.check_qp(obs, s, mod, x, dt, ud, direct=rf, tag=tag)
    return u, v == 'ok'


def run_case(case, obs):
    if case['mode'] == 'use':
        return run_use(case, obs)
    rng = np.random.default_rng(case['seed'])
    sp = case['spec']
    s = lib.mk(sp)
    kw, rf = dict(jit_enable=case['jit']), None
    if case['direct']:
        mk, rf = make_direct(rng, s.nu, 2)
        kw['direct'] = mk
    mod = obs.call('constructor', s.build, **kw)
    base = {k: dict(c.params) for k, c in s.cons.items()}
    names = list(s.cons)
    last = None
    for i in range(case['n']):
        tag = 'none'
        t = rng.random()
        if t < 0.35 and any(base[k] for k in names):
            k = names[int(rng.integers(len(names)))]
            if base[k]:
                name = list(base[k])[int(rng.integers(len(base[k])))]
                if name == 'dt':
                    val = float(rng.choice([1, 2, 0.5]))
                elif name == 'fov':
                    val = base[k][name] * rng.uniform(0.5, 1.5)
                else:
                    val = base[k][name] * rng.uniform(0.3, 1.7) + (0.2 * rng.normal() if sp['fam'] == 'user' and name in ('c',) else 0)
                set_param(rng, mod, s, k, name, val, obs)
                tag = f'param {k}.{name}'
                obs.n('param_change')
        elif t < 0.6:
            k = names[int(rng.integers(len(names)))]
            s.cons[k].enabled = not s.cons[k].enabled
            mod.constraints[k].enabled = [bool, np.bool_, bool, int][int(rng.integers(4))](s.cons[k].enabled)
            tag = f'enabled {k}={s.cons[k].enabled}'
            obs.n('enable_change')
        elif t < 0.68 and rf:
            k = list(rf)[int(rng.integers(len(rf)))]
            if rng.random() < 0.5:
                rf[k]['enabled'] = not rf[k]['enabled']
                mod.direct_inequality_constraints[k].enabled = rf[k]['enabled']
            else:
                rf[k]['params']['k'] = float(rng.uniform(-.4, .1))
                mod.direct_inequality_constraints[k].params['k'] = rf[k]['params']['k']
            tag = f'direct {k}'
            obs.n('direct_change')
        elif t < 0.71:
            for k in names:
                s.cons[k].enabled = False
                mod.constraints[k].enabled = False
            tag = 'all disabled'
            obs.n('all_disabled')
        elif t < 0.78:
            for k in names:
                s.cons[k].enabled = True
                mod.constraints[k].enabled = True
            tag = 'all enabled'
        # the call before the change is repeated right after it half of the time
        if last is not None and rng.random() < 0.5:
            x, ud, dt = last[:3]
        else:
            x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts[:2]))
        if rng.random() < 0.3 and sp['fam'] == 'user' and s.kind != 'dasif':
            (lib.tune_simplex(s, mod, rng, x, dt, ud) if 'simplex' in s.kind else lib.tune_qp(s, mod, rng, x))
            last = None
        u, ok = judge(obs, s, mod, x, dt, ud, rf, tag)
        un = None if u is None else np.asarray(u, float)
        if ok and last is not None and last[0] is x and last[3] is not None and not lib.same(un, last[3], 1e-6) and tag != 'none':
            obs.n('decision_depends_on_change')
        if ok and i % (8 if sp['fam'] == 'user' else 20) == 7:
            fresh = obs.call('constructor', s.build, **kw)
            for k in names:
                fresh.constraints[k].params.update(s.cons[k].params)
                fresh.constraints[k].enabled = s.cons[k].enabled
            for k in (rf or {}):
                fresh.direct_inequality_constraints[k].params.update(rf[k]['params'])
                fresh.direct_inequality_constraints[k].enabled = rf[k]['enabled']
            if 'simplex' in s.kind:
                mod.reset()
            uf, _, _ = lib.filter_qp(obs, fresh, x, dt, ud)
            um, _, _ = lib.filter_qp(obs, mod, x, dt, ud)
            obs.n('vs_fresh_module')
            if not lib.same(um, uf, 1e-6) or bool(fresh.intervening) != bool(mod.intervening):
                dec = lib.simplex_decide(s, x, dt, ud, 1e-9)[0] if 'simplex' in s.kind else True
                if dec is not None:
                    obs.violate(f'{s.name}: after {tag} the module returns {um} (intervening {mod.intervening}), a new module with the same values {uf} ({fresh.intervening})', scenario=s.name, state=x, dt=dt, desired=ud)
            vm, vf = mod.constraint_values, fresh.constraint_values
            if set(vm) != set(vf) or any(abs(vm[k] - vf[k]) > 1e-9 * (1 + abs(vf[k])) for k in vf):
                obs.violate(f'{s.name}: after {tag} reported constraint values {vm} differ from a new module {vf}', state=x)
        last = (x, ud, dt, un if ok else None)


def run_use(case, obs):
    """constraints_to_use"""
    rng = np.random.default_rng(case['seed'])
    kind = case['kind']
    zoo = lib.zoo_specs(kind)
    for t in range(case['n']):
        if t % 2 and zoo:
            sp = dict(zoo[int(rng.integers(min(3, len(zoo))))])
            if kind == 'easif' and t == 1:
                sp = dict(fam='inspn3', kind=kind)
        else:
            sysn = lib.USYS[int(rng.integers(len(lib.USYS)))]
            sp = dict(fam='user', kind=kind, sys=sysn, cseed=int(rng.integers(1 << 30)), bounds='var', bmag=1.5, bseed=t, window=0.4 if kind[0] == 'i' else None)
        s = lib.mk(sp)
        if sp['fam'] == 'user' and t % 4 == 0:      # names that start or end alike
            cs = user_cons(sp['sys'], np.random.default_rng(sp['cseed']))
            like = ['lim', 'lim_2', 'limit', 'my_lim', 'Lim']
            s = user_scn(kind, sp['sys'], 0, s.lo, s.hi, window=sp['window'], cons=type(cs)(zip(like, cs.values())))
            obs.n('similar_names')
        names = list(s.cons)
        m = int(rng.integers(1, len(names) + 1))
        if sp['fam'].startswith('inspn'):
            m = len(names) - 1
        use = [names[i] for i in rng.permutation(len(names))[:m]]
        if t % 4 == 0:
            use = [names[0]] + ([names[-1]] if len(names) > 3 and rng.random() < 0.5 else [])
        extra = ['not_a_constraint'] if rng.random() < 0.5 else []
        for bad in ([], ['nope', 'also_not']):
            try:
                s.build(constraints_to_use=list(bad))
                obs.violate(f'{s.name}: constraints_to_use={bad} selects nothing but was accepted')
            except ValueError:
                obs.n('no_known_constraint_rejected')
        mod = obs.call('constructor', s.build, constraints_to_use=use + extra)
        if set(mod.constraints) != set(use):
            obs.violate(f'{s.name}: constraints_to_use={use} gives {list(mod.constraints)}')
            return
        s.cons = type(s.cons)((k, s.cons[k]) for k in names if k in use)
        for i in range(12):
            x, ud, dt = s.draw(rng), s.draw_u(rng), float(rng.choice(s.dts[:2]))
            u, ok = judge(obs, s, mod, x, dt, ud, None, f'use {sorted(use)}')
            obs.n('constraints_to_use', bool(ok))
            if set(mod.constraint_values) != set(use):
                obs.violate(f'{s.name}: reports constraints {sorted(mod.constraint_values)}, configured {sorted(use)}')

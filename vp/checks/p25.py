"""P25 named state accessors: random read/write histories on every state class against a plain list"""
import numpy as np
from vp.core import case_seed
from vp.sut import zi, z1, z2, z3, jnp
from run_time_assurance.state import RTAStateWrapper

RULE = 'distinct (class, component, operation, vector) compared with a list model'
ASSUMPTIONS = ['component order is the documented one: positions, velocities, then sun angle and delta-v']
REQUIRE = {'read': 1500, 'write': 600, 'alias_probe': 100, 'size': 100}
CL = {'int1': (zi.Integrator1dDockingState, ['x', 'x_dot']), 'dock2': (z2.Docking2dState, ['x', 'y', 'x_dot', 'y_dot']),
      'dock3': (z3.Docking3dState, ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot']),
      'insp': (z1.Inspection3dState, ['x', 'y', 'z', 'x_dot', 'y_dot', 'z_dot', 'sun_angle', 'delta_v']), 'base': (RTAStateWrapper, [])}


def cases(tier, seed):
    return [dict(cls=c, seed=case_seed(seed, 'p25', c, i), n=12 if tier == 'quick' else 60, x64=bool(i % 2)) for c in CL for i in range(4 if tier == 'quick' else 12)]


def run_case(case, obs):
    rng = np.random.default_rng(case['seed'])
    cls, names = CL[case['cls']]
    dt = np.float64 if case['x64'] else np.float32
    others = []
    for k in range(case['n']):
        n = len(names) or int(rng.integers(1, 10))
        v = (rng.normal(size=n) * 10.**rng.uniform(-3, 3)).astype(dt)
        src = v.copy() if rng.random() < 0.6 else jnp.array(v)
        model = [dt(a) for a in v]
        s = obs.call(f'{cls.__name__}()', cls, src)
        obs.expect(s.size == n and len(s) == n, f'{cls.__name__}: size {s.size}, len {len(s)} for {n} elements')
        obs.n('size')
        if isinstance(src, np.ndarray):
            keep = src.copy()
            src[:] = -7.25
            obs.n('alias_probe')
            obs.expect(np.array_equal(np.asarray(s.vector), keep), f'{cls.__name__}: writing the caller\'s vector changed the state', got=s.vector, want=keep)
            src[:] = keep
        for j in range(14):
            if names and rng.random() < 0.35:
                nm = names[int(rng.integers(n))]
                val = float(dt(rng.normal() * 10.**rng.uniform(-3, 3)))
                if rng.random() < 0.2:
                    val = int(rng.integers(-5, 5))
                try:
                    setattr(s, nm, val)
                except Exception as e:  # noqa
                    obs.violate(f'{cls.__name__}.{nm} = {val} raised {type(e).__name__}: {e}')
                    return
                model[names.index(nm)] = dt(val)
                obs.n('write')
                obs.judged((case['cls'], 'w', nm, j, round(float(val), 5)))
            obs.expect(np.array_equal(np.asarray(s.vector), np.array(model)), f'{cls.__name__}: vector {np.asarray(s.vector)}, expected {model}')
            for i, nm in enumerate(names):
                got = float(getattr(s, nm))
                obs.n('read')
                obs.judged((case['cls'], 'r', nm, round(got, 5)))
                obs.expect(got == float(model[i]), f'{cls.__name__}.{nm} reads {got}, element {i} is {model[i]}', vector=s.vector)
            if isinstance(src, np.ndarray):
                obs.expect(np.array_equal(src, v), f'{cls.__name__}: writing a component changed the caller\'s vector')
        others.append((s, list(model)))
        o, m = others[int(rng.integers(len(others)))]
        obs.expect(np.array_equal(np.asarray(o.vector), np.array(m)), f'{cls.__name__}: an earlier state object changed', got=o.vector, want=m)
    obs.sample(cls=cls.__name__, components=names)

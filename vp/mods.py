"""Uniform access to every kind of RTA module: base modules, cascades, combined multi-deputy modules, the delta-v filter."""
import numpy as np
from vp import lib, ref as R
from vp.sut import rbase, z1, zn, bounds_variants, CARE_FALLBACKS
from vp.sut import user_scn, SYS, sticky


class M:
    """name, build(**kw), draw(rng), draw_u(rng), nu, lo, hi, dts; scn is the reference scenario when there is one"""

    def __init__(self, name, build, draw, nu, lo, hi, dts, scn=None, u_scale=1., kind=None, members=None):
        self.name, self.build, self.draw, self.nu, self.lo, self.hi, self.dts, self.scn, self.u_scale, self.kind = name, build, sticky(draw), nu, lo, hi, dts, scn, u_scale, kind
        self.members = members

    draw_u, _draw_u = lib.Scn.draw_u, lib.Scn._draw_u


def cascade_of(builders, **kw):
    class Casc(rbase.CascadedRTA):
        def _setup_rta_list(self):
            return [b() for b in builders]
    return Casc(**kw)


def deltav_draw(limit):
    def draw(rng):
        p = rng.normal(size=3) * 10.**rng.uniform(0, 2.8)
        v = rng.normal(size=3) * 10.**rng.uniform(-2, 0)
        dv = rng.choice([rng.uniform(0, limit), limit - 10.**rng.uniform(-3, 1), limit + rng.uniform(0, 2)])
        return np.concatenate([p, v, [rng.uniform(-3, 3), max(0., dv)]])
    return draw


def gmk(spec):
    fam = spec['fam']
    if fam == 'deltav':
        over = dict(spec.get('over', {}))
        lo, hi = -1, 1
        if spec.get('bounds') == 'var':
            lo, hi = bounds_variants(3, 1.0, np.random.default_rng(spec.get('bseed', 0)))
        elif isinstance(spec.get('bounds'), list):
            lo, hi = spec['bounds']
        over.update(control_bounds_low=lo, control_bounds_high=hi)
        return M('deltav', lambda **k: z1.SwitchingDeltaVLimitRTA(**{**over, **nojit(k)}), deltav_draw(over.get('delta_v_limit', 20)), 3, lo, hi, [1.0, 10.0], kind='deltav')
    if fam == 'icascade':
        lo = hi = None
        kw = {}
        if isinstance(spec.get('bounds'), list):
            lo, hi = spec['bounds']
            kw = dict(control_bounds_low=lo, control_bounds_high=hi)
        return M('inspection_cascade', lambda **k: z1.InspectionCascadedRTA(**{**kw, **nojit(k)}), lib.mk(dict(fam='insp1', kind='easif')).draw, 3, lo, hi, [1.0], kind='cascade')
    if fam == 'ucascade':
        # several user modules over one system
        subs = [lib.mk(dict(fam='user', sys=spec['sys'], **d)) for d in spec['subs']]
        lo = hi = None
        kw = {}
        if spec.get('bounds') is not None:
            lo, hi = spec['bounds']
            kw = dict(control_bounds_low=lo, control_bounds_high=hi)
        return M('user_cascade.' + spec['sys'], lambda **k: cascade_of([(lambda s=s: s.build(**k)) for s in subs], **kw), subs[0].draw, subs[0].nu, lo, hi, [0.1, 0.05, 0.2], kind='cascade', members=subs)
    if fam == 'combined':
        nd = spec['nd']
        s = lib.mk(dict(fam=f'inspn{nd}', kind='easif'))
        lo, hi = spec.get('bounds') or (-1, 1)
        return M(f'combined{nd}', lambda **k: zn.CombinedInspectionRTA(num_deputies=nd, control_bounds_low=lo, control_bounds_high=hi, deputy_rta=s.build(**k)), s.draw, 3 * nd, lo, hi, [1.0], kind='combined', members=[s])
    s = lib.mk(spec)
    return M(s.name, s.build, s.draw, s.nu, s.lo, s.hi, s.dts, scn=s, u_scale=s.u_scale, kind=s.kind)


def nojit(k):
    return {a: b for a, b in k.items() if not a.startswith('jit')}


def all_specs(seed, kinds=None):
    """one specification per kind of module"""
    from vp.core import case_seed
    out = []
    for kind in ('esimplex', 'isimplex', 'easif', 'iasif', 'dasif'):
        for i, sysn in enumerate(lib.USYS):
            d = dict(fam='user', kind=kind, sys=sysn, cseed=case_seed(seed, 'all', kind, i), bounds='var', bseed=case_seed(seed, 'allb', kind, i), bmag=1.5)
            if kind in ('isimplex', 'iasif'):
                d['window'] = 0.5
            out.append(d)
        out += [dict(z) for z in lib.zoo_specs(kind)]
    out += [dict(fam='deltav'), dict(fam='deltav', bounds='var', bseed=seed), dict(fam='icascade'), dict(fam='combined', nd=2), dict(fam='combined', nd=3),
            dict(fam='ucascade', sys='di2', subs=[dict(kind='easif', cseed=1, bounds=[-1, 1]), dict(kind='esimplex', cseed=2, bounds=[-2, 2])], bounds=[-1.5, 1.2]),
            dict(fam='ucascade', sys='full2', subs=[dict(kind='iasif', cseed=3, bounds=[-1, 1], window=.4), dict(kind='dasif', cseed=4, bounds=[-2, 2]), dict(kind='isimplex', cseed=5, bounds=[-1, 1], window=.4)], bounds=None)]
    return out

"""small pieces shared by the demonstrations (a copy lies beside each demo.py)"""
import os, sys, warnings
os.environ.setdefault('JAX_PLATFORMS', 'cpu')
os.environ.setdefault('MPLBACKEND', 'Agg')
warnings.simplefilter('ignore')
from collections import OrderedDict
import jax
jax.config.update('jax_enable_x64', True)
import jax.numpy as jnp
import numpy as np
from run_time_assurance import constraint as C, controller as CT
from run_time_assurance.rta import base, simplex, asif
PCS = C.PolynomialConstraintStrengthener
class Con(C.ConstraintModule):
    """h(x) = fn(x, params)"""
    def __init__(self, fn, **kw):
        self.fn = fn
        kw.setdefault('alpha', PCS([0, 1.]))
        super().__init__(**kw)
    def _compute(self, state, params):
        return self.fn(state, params)
class Law(CT.RTABackupController):
    def __init__(self, k, **kw):
        self.k = k
        super().__init__(**kw)
    def _generate_control(self, state, step_size, controller_state=None):
        return self.k(state), None
class Mix:
    """double integrator x = (p, v), u = (a,)  (nu > 1: one per axis)"""
    nu = 1
    cons = None
    direct = None
    def _setup_constraints(self):
        return OrderedDict((k, m()) for k, m in self.cons.items())
    def state_transition_system(self, x):
        n = self.nu
        return jnp.concatenate((x[n:], jnp.zeros(n)))
    def state_transition_input(self, x):
        n = self.nu
        return jnp.vstack((jnp.zeros((n, n)), jnp.eye(n)))
    def _setup_direct_constraints(self):
        return OrderedDict((k, m()) for k, m in (self.direct or {}).items())
class Pred:
    def _pred_state(self, x, dt, u):
        return x + dt * (self.state_transition_system(x) + self.state_transition_input(x) @ u)
def make(kind, cons, nu=1, direct=None, **kw):
    d = dict(nu=nu, cons=OrderedDict(cons), direct=direct)
    if kind == 'esimplex':
        return type('ES', (Mix, Pred, simplex.ExplicitSimplexModule), d)(**kw)
    if kind == 'isimplex':
        return type('IS', (Mix, Pred, simplex.ImplicitSimplexModule), d)(**kw)
    if kind == 'easif':
        return type('EA', (Mix, asif.ExplicitASIFModule), d)(control_dim=nu, **kw)
    if kind == 'iasif':
        return type('IA', (Mix, Pred, asif.ImplicitASIFModule), d)(control_dim=nu, integration_method='Euler', **kw)
    if kind == 'dasif':
        d['next_state_differentiable'] = Pred._pred_state
        return type('DA', (Mix, asif.DiscreteASIFModule), d)(control_dim=nu, **kw)
def check(cond, msg):
    if not cond:
        print('FAILED:', msg)
        sys.exit(1)

"""Planted bugs: edits to the library, a demonstration, and what they need (see tools/seed.py)"""
BUGS = []
def bug(id, property, edits, demo, needs, breaks):
    BUGS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))
B, S, A, K, CT = 'rta/base.py', 'rta/simplex.py', 'rta/asif.py', 'constraint.py', 'controller.py'
V1, N3, D2, D3, CU, ST, I1 = 'zoo/cwh/inspection_1v1.py', 'zoo/cwh/inspection_3d.py', 'zoo/cwh/docking_2d.py', 'zoo/cwh/docking_3d.py', 'zoo/cwh/utils.py', 'utils/sample_testing.py', 'zoo/integrators/integrator_1d.py'
SPEED = "{'v': lambda: Con(lambda x, p: p['lim'] - x[1], params={'lim': 1.0})}"

bug('b01-one-sided-bounds', 'P01', [(B, """        if self.control_bounds_low is not None or self.control_bounds_high is not None:
            control = np.clip(""", """        if self.control_bounds_low is not None and self.control_bounds_high is not None:
            control = np.clip(""")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=0.5)
u = m.filter_control(np.array([0., -5.]), 0.1, np.array([3.]))
check(u[0] <= 0.5, f'control {u} above the upper bound 0.5')
""" % SPEED, 'a module configured with only a lower or only an upper bound, and a desired control beyond it', 'one-sided control bounds are not applied to the returned control')

bug('b02-desired-alias', 'P02', [(B, "self.control_desired = np.copy(control_desired)", "self.control_desired = np.asarray(control_desired)")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
buf = np.array([0.25])
m.filter_control(np.array([0., 0.]), 0.1, buf)
buf[:] = 99.
check(m.control_desired[0] == 0.25, f'recorded desired control changed to {m.control_desired}')
""" % SPEED, 'a caller that reuses its control buffer between the call and reading the record', 'the recorded desired control is the caller\'s own array')

bug('b03-bias-ignored', 'P03', [(S, "constraint_vmapped = vmap(constraint.compute, (0, None), 0)", "constraint_vmapped = vmap(constraint._compute_fn, (0, None), 0)")], """
m = make('esimplex', {'v': lambda: Con(lambda x, p: 1.0 - x[1], bias=-0.2)}, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., 0.7]), 0.1, np.array([2.]))
check(m.intervening and u[0] == -1, f'predicted speed 0.9 is beyond the biased limit 0.8 but {u} was passed')
""", 'a constraint with a non-zero bias and a prediction inside the bias band', 'the compiled simplex monitor ignores the constraint bias')

bug('b04-window-short', 'P04', [(S, "        for _ in range(Nsteps):", "        for _ in range(1, Nsteps):")], """
# the backup brakes too slowly: only the very last point of the window is unsafe
m = make('isimplex', {'p': lambda: Con(lambda x, p: 1.0 - x[0])}, backup_window=1.0, backup_controller=Law(lambda x: jnp.array([0.])), control_bounds_high=5, control_bounds_low=-5)
# after one step at v=1 from -0.05: 0.05, then +0.1 each of 10 steps: 1.05 at the last, 0.95 before
u = m.filter_control(np.array([-0.05, 1.0]), 0.1, np.array([0.]))
check(m.intervening, 'the last point of the backup window is unsafe but the module did not intervene')
""", 'a backup trajectory that becomes unsafe exactly at the last step of the window', 'the backup trajectory is one step too short')

bug('b05-latch-strict', 'P05', [(S, "if self.latched_elapsed >= self.latch_time:", "if self.latched_elapsed > self.latch_time:")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, latch_time=1.0)
m.filter_control(np.array([0., 0.99]), 0.5, np.array([5.]))
r = [float(m.filter_control(np.array([0., 0.]), 0.5, np.array([0.25]))[0]) for _ in range(4)]
check(r[:3] == [-1., -1., 0.25], f'latch of 1 s released at the wrong step: {r}')
""" % SPEED, 'a latch time that is an exact multiple of the step size', 'the latch is held one step longer than the latch time')

bug('b06-negative-band', 'P06', [(A, "                constraint_val < 0,\n", "                constraint_val - c.bias < 0,\n")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1.0 - x[1], bias=-0.2, alpha=PCS([0, 1.]))}, control_bounds_high=5, control_bounds_low=-5)
# h = 0.1 - 0.2 = -0.1 < 0: u <= 10*h - 0.01 = -1.01
u = m.filter_control(np.array([0., 0.9]), 0.1, np.array([0.]))
check(abs(u[0] + 1.01) < 1e-6, f'control {u} is not the recovery control -1.01')
""", 'a constraint with bias and a state between the true and the biased boundary', 'the recovery strengthening is not used where the biased constraint value is negative')

bug('b07-least-abs', 'P07', [(A, "constraint_sorted_idxs = jnp.argsort(tmp_constraint_vals)", "constraint_sorted_idxs = jnp.argsort(jnp.abs(tmp_constraint_vals))")], """
m = make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]), subsample_constraints_num_least=1)}, backup_window=2.0, backup_controller=Law(lambda x: jnp.array([0.])),
         control_bounds_high=50, control_bounds_low=-50)
# trajectory p = 0.2 + 1.0 t: least value is at the end of the window (p = 2.2, h = -1.2); D = [[1, t], [0, 1]]
u = m.filter_control(np.array([0.2, 1.0]), 0.5, np.array([0.]))
# row: -(v + T u) + h >= 0 with T = 2: u <= (h - v)/2 = -1.1
check(abs(u[0] + 1.1) < 1e-4, f'control {u} does not enforce the least point of the trajectory')
""", 'subsampling to the N least values with a backup trajectory that leaves the safe set', 'points with the smallest magnitude instead of the least value are kept')

bug('b08-discrete-dt', 'P08', [(K, "h = (self.constraint(next_state, params) - self.constraint(state, params)) / step_size + self.constraint.alpha(", "h = (self.constraint(next_state, params) - self.constraint(state, params)) + self.constraint.alpha(")], """
m = make('dasif', {'v': lambda: Con(lambda x, p: 1.0 - x[1], alpha=PCS([0, 1.]))}, control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., 0.5]), 0.25, np.array([4.]))
check(abs(u[0] - 0.5) < 1e-4, f'control {u}: (h+ - h)/dt + h >= 0 demands u <= 0.5')
""", 'a step size other than one second', 'the discrete barrier does not divide the change by the step size')

bug('b09-slack-column', 'P09', [(A, """            if c.slack_priority_scale is not None:
                slack = slack.at[slack_counter].set(-1.)
                slack_counter += 1
            temp1""", """            if c.slack_priority_scale is not None:
                slack = slack.at[min(slack_counter, 0)].set(-1.)
                slack_counter += 1
            temp1""")], """
m = make('easif', OrderedDict([('a', lambda: Con(lambda x, p: 1. + x[1], slack_priority_scale=1e4)), ('b', lambda: Con(lambda x, p: -1. - x[1], bias_negative=0., alpha_negative=PCS([0, 1.]), slack_priority_scale=1e10))]),
         control_bounds_high=50, control_bounds_low=-50)
# a: u >= -(1 + v);  b: u <= -1 - v ... conflict at v = 1: a: u >= -2 + s, b: u <= -2; move a up
m.constraints['a'].params = {}
u = m.filter_control(np.array([0., 1.]), 0.1, np.array([0.]))
check(abs(u[0] + 2.) < 1e-3, f'{u}')
""", 'two constraints with slack', 'all slack constraints share one slack variable')

bug('b10-warn-once', 'P10', [(A, """                if not self.solver_exception:
                    warnings.warn(SolverWarning())
                    u = obj_constant""", """                if not self.solver_exception:
                    if self.constraints_causing_intervention != ['none']:
                        warnings.warn(SolverWarning())
                    self.constraints_causing_intervention = ['none']
                    u = obj_constant""")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1.0 - x[1])}, control_bounds_high=1, control_bounds_low=-1)
for k in range(3):
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter('always')
        m.filter_control(np.array([0., 50.]), 0.1, np.array([0.]))
    check(len(w) > 0, f'call {k + 1}: infeasible problem not reported')
""", 'two consecutive calls whose optimisation has no solution', 'only the first of consecutive solver failures is reported')

bug('b11-params-cached', 'P11', [(B, "            self.params[k] = c.params\n", "            self.params[k] = self.params[k] or c.params\n")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
m.filter_control(np.array([0., 0.5]), 0.1, np.array([0.]))
m.constraints['v'].params = {'lim': 0.3}
u = m.filter_control(np.array([0., 0.5]), 0.1, np.array([0.]))
check(m.intervening, 'the new limit 0.3 is ignored')
""" % SPEED, 'a parameter dictionary that is replaced (not updated in place) between calls', 'replaced constraint parameters are never picked up')

bug('b12-reset-keeps-controller', 'P12', [(CT, """        self.controller_state = self._copy_controller_state(self.controller_state_initial)
        self._compose()

    def _copy_controller_state""", """        if self.controller_state is None:
            self.controller_state = self._copy_controller_state(self.controller_state_initial)
        self._compose()

    def _copy_controller_state""")], """
class Ramp(CT.RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return -controller_state, controller_state + 0.1
m = make('esimplex', %s, backup_controller=Ramp(controller_state_initial=jnp.array([0.1]), jit_enable=False), jit_enable=False, control_bounds_high=5, control_bounds_low=-5)
a = [float(m.filter_control(np.array([0., 2.]), 0.1, np.array([1.]))[0]) for _ in range(3)]
m.reset()
b = [float(m.filter_control(np.array([0., 2.]), 0.1, np.array([1.]))[0]) for _ in range(3)]
check(a == b, f'episode after reset differs: {a} {b}')
""" % SPEED, 'a stateful backup controller that has been used before the reset', 'reset does not restore the initial state of a stateful backup controller')

bug('b13-nojit-bias', 'P13', [(S, "            traj_constraint_vals.append(constraint.compute(state, params))", "            traj_constraint_vals.append(constraint._compute(state, params))")], """
r = []
for j in (True, False):
    m = make('isimplex', {'v': lambda: Con(lambda x, p: 1.0 - x[1], bias=-0.2)}, backup_window=0.5, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, jit_enable=j)
    r.append(float(m.filter_control(np.array([0., 0.7]), 0.1, np.array([2.]))[0]))
check(r[0] == r[1], f'compiled {r[0]} uncompiled {r[1]}')
""", 'compilation disabled and a prediction inside the bias band', 'the uncompiled simplex monitor ignores the bias')

bug('b14-epsilon-norm', 'P14', [(A, "return bool(np.linalg.norm(desired_control - actual_control) > self.epsilon)", "return bool(np.abs(desired_control - actual_control).max() > self.epsilon)")], """
m = make('easif', {'a': lambda: Con(lambda x, p: 1. - x[2] - x[3])}, nu=2, control_bounds_high=5, control_bounds_low=-5, epsilon=0.1)
u = m.filter_control(np.array([0., 0., 0.5, 0.5]), 0.1, np.array([0.08, 0.08]))
d = np.linalg.norm(u - 0.08)
check(d > 0.1 and m.intervening, f'distance {d} > epsilon 0.1 but intervening={m.intervening}')
""", 'a multi-dimensional control changed by slightly more than epsilon in norm but less in each component', 'the intervention threshold is applied per component')

bug('b15-save-alias', 'P15', [(CT, "        self.controller_state_saved = self._copy_controller_state(self.controller_state)", "        self.controller_state_saved = self.controller_state")], """
class Cnt(CT.RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        controller_state['i'] = controller_state['i'] + 0.1
        return -jnp.ones(1) * controller_state['i'], controller_state
m = make('isimplex', %s, backup_window=0.5, backup_controller=Cnt(controller_state_initial={'i': jnp.array(0.)}, jit_enable=False), jit_enable=False, control_bounds_high=5, control_bounds_low=-5)
m.filter_control(np.array([0., 0.]), 0.1, np.array([0.]))
check(float(m.backup_controller.controller_state['i']) == 0., f'prediction moved the controller state to {m.backup_controller.controller_state}')
""" % SPEED, 'a backup controller with a dictionary state that it updates in place', 'the state saved before a prediction is the live object')

bug('b16-cascade-flag', 'P16', [(B, """            if rta.intervening:
                self.intervening = True

        return control

    @abc.abstractmethod
    def _setup_rta_list""", """            self.intervening = rta.enable and rta.intervening

        return control

    @abc.abstractmethod
    def _setup_rta_list""")], """
def mod(lim, lo):
    return make('esimplex', {'v': lambda: Con(lambda x, p: lim - x[1])}, backup_controller=Law(lambda x: jnp.array([lo])), control_bounds_high=5, control_bounds_low=-5)
class Casc(base.CascadedRTA):
    def _setup_rta_list(self):
        return [mod(0.5, -1.), mod(10., -2.)]
c = Casc()
u = c.filter_control(np.array([0., 0.6]), 0.1, np.array([0.]))
check(u[0] == -1. and c.intervening, f'first member intervened ({u}) but the cascade reports {c.intervening}')
""", 'an early member intervenes and a later one does not', 'the cascade reports only the last member\'s intervention')

bug('b17-agent-order', 'P17', [
    (N3, "        x_old = np.delete(state, np.s_[6 * i : 6 * i + 6], 0)\n", "        x_old = np.roll(np.delete(state, np.s_[6 * i : 6 * i + 6], 0), 6 * (i > 5))\n")], """
from run_time_assurance.zoo.cwh.inspection_3d import CombinedInspectionRTA
class Dep(base.RTAModule):
    def __init__(self): super().__init__(); self.seen = []
    def compute_filtered_control(self, x, dt, u):
        self.seen.append(np.array(x)); return u
d = Dep()
m = CombinedInspectionRTA(num_deputies=7, deputy_rta=d)
x = np.arange(43.)
m.filter_control(x, 1.0, np.zeros(21))
want = np.concatenate((x[36:42], x[0:36], x[42:]))
check(np.array_equal(d.seen[6], want), f'last deputy was given {d.seen[6]}')
""", 'seven or more deputies, looking at the last one', 'the seventh deputy\'s view has the sun angle among the other deputies\' states')

bug('b18-weak-backup', 'P18', [(D2, "        state_des = state_des.at[2:].set(0)\n", "        state_des = state_des.at[3:].set(0)\n")], """
from run_time_assurance.zoo.cwh.docking_2d import Docking2dExplicitSwitchingRTA
from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
import scipy.linalg
m = Docking2dExplicitSwitchingRTA()
A4, B4 = [np.array(v) for v in generate_cwh_matrices(m.m, m.n, '2d')]
E = scipy.linalg.expm(np.block([[A4, B4], [np.zeros((2, 6))]]))
x = np.array([100., 5., 0., 0.]); worst = 9.
for k in range(320):
    u = m.filter_control(x, 1.0, np.array([-1., 0.]))
    x = E[:4, :4] @ x + E[:4, 4:] @ u
    worst = min(worst, m.v0 + m.v1 * np.linalg.norm(x[:2]) - np.linalg.norm(x[2:]))
check(worst > -0.005, f'the speed limit is exceeded by {-worst} m/s')
""", 'a closed loop that reaches the speed limit with radial velocity', 'the backup controller of the 2d docking filters does not brake the radial velocity')

bug('b19-cone-unit', 'P19', [(V1, "        cone_unit_vec = cone_vec / jnp.linalg.norm(cone_vec)\n", "        cone_unit_vec = cone_vec / jnp.maximum(jnp.linalg.norm(cone_vec), 1.0)\n")], """
c = __import__('run_time_assurance.zoo.cwh.inspection_1v1', fromlist=['x']).ConstraintCWHConicKeepOutZone(a_max=0.05, fov=np.pi / 3, get_pos=lambda s: s[0:3], get_vel=lambda s: s[3:6],
    get_cone_vec=lambda s: -0.8 * jnp.array([jnp.cos(s[6]), jnp.sin(s[6]), 0.]), cone_ang_vel=jnp.array([0, 0, -0.05]))
x = np.array([40., 300., 20., 0.1, -0.2, 0.05, 0.7, 0.])
# independent: distance s to the cone surface along its outward normal nrm
cv = -np.array([np.cos(.7), np.sin(.7), 0.]); p, v = x[:3], x[3:6]
perp = p - (p @ cv) * cv; o = perp / np.linalg.norm(perp); th = np.pi / 6
nrm = np.cos(th) * o - np.sin(th) * cv
s = p @ nrm; q = p - s * nrm
want = np.sqrt(2 * .05 * s) + nrm @ (v - np.cross([0, 0, -.05], q))
got = float(c(jnp.array(x), c.params))
check(abs(got - want) < 1e-6, f'{got} {want}')
""", 'a keep-out cone whose axis vector is shorter than one', 'the cone axis is not normalised when it is shorter than a unit vector')

bug('b20-discrete-dt2', 'P20', [(V1, "4 / self.n**2 * (1 - c) - 3 / 2 * dt**2,", "4 / self.n**2 * (1 - c) - 3 / 2 * dt,")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import DiscreteInspection1v1RTA
from run_time_assurance.zoo.cwh.utils import generate_cwh_matrices
import scipy.linalg
m = DiscreteInspection1v1RTA()
A6, B6 = generate_cwh_matrices(m.m, m.n, '3d')
for dt in (1.0, 0.5, 2.0):
    E = scipy.linalg.expm(np.block([[A6, B6], [np.zeros((3, 9))]]) * dt)
    check(np.abs(np.array(m.discrete_b_mat(dt)) - E[:6, 6:]).max() < 1e-6, f'dt={dt}')
""", 'a step size other than one second and thrust along the track', 'the discrete input matrix is only right for a step of one second')

bug('b21-hocbf-degree3', 'P21', [(K, """constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system""", """constraint=hocbf_constraint_dict["constraint_" + str(min(i - 1, 0))], state_transition_system""")], """
c0 = Con(lambda x, p: x[0])
f = lambda x: jnp.array([x[1], x[2], 0.])
h = C.HOCBFConstraint(c0, relative_degree=3, state_transition_system=f, alpha=PCS([0, 2.]))
x = jnp.array([0.3, -0.2, 0.7])
# psi1 = x1 + 2 x0; psi2 = x2 + 2 x1 + 2 psi1
want = 0.7 + 2 * -0.2 + 2 * (-0.2 + 0.6)
check(abs(float(h(x, h.params)) - want) < 1e-9, f'{float(h(x, h.params))} {want}')
""", 'relative degree three or more', 'every level of the recursion starts from the original constraint')

bug('b22-integral-dt', 'P22', [(V1, "error_integral = error_integral + error * step_size", "error_integral = error_integral + error")], """
import scipy.linalg as sl
orig = sl.solve_continuous_are
sl.solve_continuous_are = lambda a, b, q, r, **k: np.eye(a.shape[0]) * 1e4 + np.ones(a.shape) * 1e3
import run_time_assurance.zoo.cwh.inspection_1v1 as z
m = z.SwitchingDeltaVLimitRTA(delta_v_limit=0.0, n_steps=3)
x = np.array([100., 50., 10., 0.3, -0.2, 0.1, 0., 5.])
m.filter_control(x, 0.5, np.ones(3) * 0.1)
err = np.array([0, 0, 0, x[3] - m.n / 2 * x[1], x[4] + 2 * m.n * x[0], 0])
check(np.allclose(m.error_integral, err * 0.5), f'{m.error_integral} {err * 0.5}')
""", 'a step size other than one second while latched', 'the integral error is accumulated without the step size')

bug('b23-last-step-unchecked', 'P23', [(ST, """            current_time += self.step_size
            done = self._check_done_conditions(state, current_time)

            for c in""", """            current_time += self.step_size
            if self._check_done_conditions(state, current_time):
                break

            for c in""")], """
import tempfile, glob
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
class T(M):
    def _get_initial_state(self): return np.array([0., 0.5])
    def _pred_state(self, x, dt, u): return x + np.array([0., 0.2])
t = T(rta=m, n_points=1, simulation_time=1.5, step_size=0.5, control_dim=1, state_dim=2)
# speeds 0.7 0.9 1.1: the last step violates the limit
with tempfile.TemporaryDirectory() as d:
    t.run_sample_test(d)
    row = open(glob.glob(d + '/*.csv')[0]).read()
check(row.startswith('False'), row)
""" % SPEED, 'a constraint violated for the first time at the last step of an episode', 'a violation at the final state is recorded as safe')

bug('b24-uniform-width', 'P24', [(ST, "np.random.uniform(self.distribution_params[0][i], self.distribution_params[1][i])", "self.distribution_params[0][i] + self.distribution_params[1][i] * np.random.random()")], """
from run_time_assurance.utils.sample_testing import ParametricRandomSampleTestingModule as M
class T(M):
    def _pred_state(self, x, dt, u): return x
t = T(rta=None, n_points=1, simulation_time=1, step_size=1, control_dim=1, state_dim=1, state_pdfs=['uniform'], distribution_params=np.array([[2.], [3.]]))
xs = np.array([t._get_initial_state()[0] for _ in range(200)])
check(xs.min() >= 2 and xs.max() <= 3, f'{xs.min()} {xs.max()}')
""", 'a uniform component whose lower bound is not zero', 'the upper bound of a uniform component is used as its width')

bug('b25-sun-angle-last', 'P25', [(V1, "        return self.vector[6]\n", "        return self.vector[-1]\n")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import Inspection3dState as St
for n in (7, 8):
    v = jnp.arange(float(n)) + 1
    check(float(St(v).sun_angle) == 7., f'{n} components: {float(St(v).sun_angle)}')
""", 'a state vector that carries the delta-v component', 'the sun angle accessor reads the delta-v when there is one')

# ---- second batch -------------------------------------------------------------------------------------------------
bug('c01-zero-bound', 'P01', [(B, """        if self.control_bounds_low is not None or self.control_bounds_high is not None:
            control = np.clip(""", """        if np.any([b is not None and np.any(b) for b in (self.control_bounds_low, self.control_bounds_high)]):
            control = np.clip(""")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=0.0)
u = m.filter_control(np.array([0., -5.]), 0.1, np.array([3.]))
check(u[0] <= 0.0, f'control {u} above the upper bound 0')
""" % SPEED, 'a module whose only configured bound is zero (an actuator that can only push one way)', 'a zero bound is taken for no bound')

bug('c02-disabled-alias', 'P02', [(B, "            self.control_actual = np.copy(control_desired)\n", "            self.control_actual = self.control_desired\n")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
m.enable = False
m.filter_control(np.array([0., 0.]), 0.1, np.array([0.25]))
m.generate_info()['control_actual'][:] = 7.
check(m.control_desired[0] == 0.25, f'recorded desired control changed to {m.control_desired}')
""" % SPEED, 'a disabled module whose recorded controls are post-processed in place', 'the two recorded controls of a disabled module are one array')

bug('c03-recheck-current', 'P03', [(S, "        pred_state = self._pred_state_fn(state, step_size, control)\n        return bool(", "        pred_state = state if intervening and self.latch_time > 0 else self._pred_state_fn(state, step_size, control)\n        return bool(")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, latch_time=0.1)
m.filter_control(np.array([0., 0.99]), 0.1, np.array([5.]))
m.filter_control(np.array([0., 0.89]), 0.1, np.array([5.]))
u = m.filter_control(np.array([0., 0.79]), 0.1, np.array([5.]))
check(m.intervening and u[0] == -1, f'{u}: the next state violates the limit')
""" % SPEED, 'the step on which a latch has run out, at a safe state with an unsafe desired control', 'when a latch runs out the monitor looks at the current state instead of the predicted one')

bug('c04-unbounded-backup', 'P04', [(S, "            control = self.backup_control(state, step_size)\n            state = self._pred_state_fn(state, step_size, control)\n            traj_states.append(state)\n", "            control = self.backup_controller.generate_control(state, step_size)\n            state = self._pred_state_fn(state, step_size, control)\n            traj_states.append(state)\n")], """
m = make('isimplex', {'p': lambda: Con(lambda x, p: 1.0 - x[0])}, backup_window=2.0, backup_controller=Law(lambda x: -10. * x[1:]), control_bounds_high=.1, control_bounds_low=-.1)
u = m.filter_control(np.array([0., 1.0]), 0.1, np.array([0.]))
check(m.intervening, 'the bounded backup controller cannot stop in time but the module did not intervene')
""", 'a backup controller whose raw output exceeds the actuator bounds', 'the predicted backup trajectory uses the unbounded backup control')

bug('c05-latch-first-step', 'P05', [(S, "                self.latched_elapsed += step_size\n", "                self.latched_elapsed += self.latched_step\n"),
    (S, "            self.intervening = self.monitor(state, step_size, control)\n", "            self.intervening = self.monitor(state, step_size, control)\n            self.latched_step = step_size\n")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, latch_time=1.0)
m.filter_control(np.array([0., 0.99]), 1.0, np.array([5.]))
r = [float(m.filter_control(np.array([0., 0.]), 0.25, np.array([0.25]))[0]) for _ in range(5)]
check(r == [-1., -1., -1., -1., 0.25], f'latch of 1 s released at the wrong step: {r}')
""" % SPEED, 'a latch during which the step size changes', 'the latch counts the step size of the intervening call for every following step')

bug('c06-clipped-target', 'P06', [(A, "        desired_control = np.array(control, dtype=np.float64)\n        actual_control = self._optimize(", "        desired_control = np.array(self._clip_control(control), dtype=np.float64)\n        actual_control = self._optimize(")], """
m = make('easif', {'d': lambda: Con(lambda x, p: 1.0 - x[2] - x[3], alpha=PCS([0, 1.]))}, nu=2, control_bounds_high=1, control_bounds_low=-1)
# u1 + u2 <= 0, desired (3, 1.5): the closest point of the square is (0.75, -0.75); starting from the clipped (1, 1) it is (0, 0)
u = m.filter_control(np.array([0., 0., .5, .5]), 0.1, np.array([3., 1.5]))
check(np.abs(u - [.75, -.75]).max() < 1e-6, f'{u} is not the closest control')
""", 'a desired control outside the bounds and a barrier that couples the control components', 'the closest control to the clipped instead of the given desired control is returned')

bug('c07-drift-point', 'P07', [(A, "        f_x0 = self.state_transition_system(initial_state)\n", "        f_x0 = self.state_transition_system(traj_state_array)\n")], """
m = make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]), num_check_all=0, skip_length=10, keep_last=True)}, backup_window=1.0, backup_controller=Law(lambda x: jnp.array([-2.])),
         control_bounds_high=50, control_bounds_low=-50)
# Euler, dt .5, x0 = (.5, 1): points (.5,1) (1,0) (1,-1); D_2 = [[1, 1], [0, 1]]; rows: -(1) + .5 >= 0 is infeasible for j=0, so start lower
x0 = np.array([-1., 1.])
# points (-1,1) (-.5,0) (-.5,-1): row j=0: -1 + 2 >= 0; row j=2: -(1 + u) + 1.5 >= 0
u = m.filter_control(x0, 0.5, np.array([3.]))
check(abs(u[0] - .5) < 1e-4, f'{u}')
""", 'a backup trajectory along which the drift changes', 'the drift term is evaluated at the trajectory point instead of the current state')

bug('c08-alpha-next', 'P08', [(K, """self.constraint.alpha(
            self.constraint(state, params)
        )""", """self.constraint.alpha(
            self.constraint(next_state, params)
        )""")], """
m = make('dasif', {'v': lambda: Con(lambda x, p: 1.0 - x[1], alpha=PCS([0, 1.]))}, control_bounds_high=5, control_bounds_low=-5)
# h = .5: -u + .5 >= 0
u = m.filter_control(np.array([0., .5]), 0.5, np.array([3.]))
check(abs(u[0] - .5) < 1e-4, f'{u}')
""", 'a step size that is not small', 'the strengthening is evaluated at the next instead of the current state')

bug('c09-equal-priority', 'P09', [(A, "            self.obj_weight[i + self.control_dim] = np.sqrt(c.slack_priority_scale)\n", "            self.obj_weight[i + self.control_dim] = np.sqrt(max(k.slack_priority_scale for k in self.constraints_with_slack.values()))\n")], """
m = make('easif', {'a': lambda: Con(lambda x, p: 0. - x[1], alpha=PCS([0, 1.]), slack_priority_scale=1e12), 'b': lambda: Con(lambda x, p: x[1] - 1., alpha=PCS([0, 1.]), alpha_negative=PCS([0, 1.]), bias_negative=0, slack_priority_scale=1e6)}, control_bounds_high=5, control_bounds_low=-5)
# -u >= 0 (priority 1e12) against u - 1 >= 0 (1e6): the first wins
u = m.filter_control(np.array([0., 0.]), 0.5, np.array([.5]))
check(abs(u[0]) < 0.1, f'{u}')
""", 'two conflicting slack constraints with different priorities', 'all slack constraints get the highest priority')

bug('c10-degenerate-rows', 'P10', [(A, """            opt = quadprog.solve_qp(
                obj_weight, obj_constant, np.array(ineq_weight, dtype=np.float64), np.array(ineq_constant, dtype=np.float64), 0
            )
""", """            ineq_weight = np.array(ineq_weight, dtype=np.float64)
            rows = np.where(np.abs(ineq_weight).max(axis=0) > 1e-9, np.array(ineq_constant, dtype=np.float64), 0.)
            opt = quadprog.solve_qp(obj_weight, obj_constant, ineq_weight, rows, 0)
""")], """
m = make('easif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]))}, control_bounds_high=5, control_bounds_low=-5, solver_exception=True)
try:
    u = m.filter_control(np.array([0.5, 3.]), 0.5, np.array([.5]))
    check(False, f'no control can meet -3 + 0.5 >= 0 but {u} was returned silently')
except asif.SolverError:
    pass
""", 'a constraint that the control cannot influence at the current state and that its barrier condition violates', 'barrier rows without control authority are ignored, so the failure is hidden')

bug('c11-no-reenable', 'P11', [(B, "            self.constraint_enabled_dict[k] = c.enabled\n", "            self.constraint_enabled_dict[k] = c.enabled and self.constraint_enabled_dict[k] is not False\n")], """
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
x, ud = np.array([0., .5]), np.array([3.])
a = m.filter_control(x, .1, ud)
m.constraints['v'].enabled = False
b = m.filter_control(x, .1, ud)
m.constraints['v'].enabled = True
c = m.filter_control(x, .1, ud)
check(abs(a[0] - .5) < 1e-6 and abs(b[0] - 3) < 1e-6 and abs(c[0] - .5) < 1e-6, f'{a} {b} {c}')
""" % SPEED, 'a constraint that is disabled for a call and enabled again', 'a constraint that was once disabled stays disabled')

bug('c12-reset-intervening', 'P12', [(B, """        self.enable = True
        self.intervening = False
        self.control_desired: np.ndarray = None""", """        self.enable = True
        self.control_desired: np.ndarray = None""")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, latch_time=1.0)
m.filter_control(np.array([0., 0.99]), 0.1, np.array([5.]))
m.reset()
u = m.filter_control(np.array([0., 0.]), 0.1, np.array([.25]))
check(u[0] == .25, f'after reset the module returns {u}')
""" % SPEED, 'an episode that ends while the simplex is latched', 'reset leaves the latch closed')

bug('c13-nojit-origin', 'P13', [(A, "            w, c, v = self.invariance_constraints(constraint, state, traj_state, traj_sensitivity, params)\n", "            w, c, v = self.invariance_constraints(constraint, traj_state, traj_state, traj_sensitivity, params)\n")], """
kw = dict(backup_window=1.0, backup_controller=None, control_bounds_high=50, control_bounds_low=-50)
r = []
for jit in (True, False):
    kw['backup_controller'] = Law(lambda x: jnp.array([-2.]))
    m = make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]))}, jit_enable=jit, **kw)
    r.append(m.filter_control(np.array([-1., 1.]), .5, np.array([3.])))
check(np.abs(r[0] - r[1]).max() < 1e-4, f'compiled {r[0]} uncompiled {r[1]}')
""", 'an implicit ASIF with compilation switched off', 'without compilation the dynamics are evaluated along the trajectory instead of at the current state')

bug('c14-stale-forever', 'P14', [(B, "        self._update_constraint_values(state)\n", "        self._update_constraint_values(state, stale=self.is_stale_constraints)\n")], """
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
m.filter_control(np.array([0., .5]), .1, np.array([3.]))
m.update_constraint_values(np.array([0., .6]))
i = m.generate_info()
check('constraints' in i and abs(i['constraints']['v'] - .4) < 1e-9, f'{i}')
""" % SPEED, 'an explicit update of the constraint values after a filtered step', 'updated constraint values stay marked as those of the last state')

bug('c15-save-once', 'P15', [(CT, "        self.controller_state_saved = self._copy_controller_state(self.controller_state)\n", "        if self.controller_state_saved is None:\n            self.controller_state_saved = self._copy_controller_state(self.controller_state)\n")], """
class Int(CT.RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return -controller_state, controller_state + 1.
m = make('isimplex', %s, backup_window=0.3, backup_controller=Int(jnp.array([1.]), jit_enable=False), control_bounds_high=50, control_bounds_low=-50)
r = [float(m.filter_control(np.array([0., 2.]), .1, np.array([0.]))[0]) for _ in range(3)]
check(r == [-1., -2., -3.], f'backup controls {r}')
""" % SPEED, 'a stateful backup controller used on several interventions', 'after the first prediction the controller is always put back to the state it had then')

bug('c16-untouched-shortcut', 'P16', [(B, "            control = np.copy(rta.filter_control(input_state, step_size, control))\n", "            control = np.copy(rta.filter_control(input_state, step_size, control if self.intervening else control_desired))\n")], """
m1 = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=1, control_bounds_low=-1)
m2 = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
class Cas(base.CascadedRTA):
    def _setup_rta_list(self): return [m1, m2]
u = Cas().filter_control(np.array([0., 0.]), .1, np.array([3.]))
check(u[0] == 1., f'{u}: the first member limits the control to 1')
""" % (SPEED, SPEED), 'a member that limits or slightly adjusts the control without reporting an intervention', 'the output of members that do not intervene is dropped')

bug('c19-horizon', 'P19', [(V1, """            jnp.linspace(params["dt"], self.steps * params["dt"], self.steps),""", """            jnp.linspace(params["dt"], self.steps, self.steps),""")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import ConstraintPassivelySafeManeuver as P
c = P(collision_radius=5., m=12., n=0.001027, dt=2.0, steps=50)
# drifts straight through the chief at t = 80 s (horizon 100 s)
x = np.array([0., 0., 40., 0., 0., -.5, 0., 0.])
got = float(c(jnp.array(x), c.params))
check(got < 0, f'{got}: the free drift collides within the horizon')
""", 'a prediction step other than one second and a collision in the later part of the horizon', 'the horizon of the passive safety constraint ignores the prediction step')

bug('c20-docking-n', 'P20', [(D2, "        self.v1 = v1_coef * n\n", "        self.v1 = v1_coef * defaults.N_DEFAULT\n")], """
from run_time_assurance.zoo.cwh.docking_2d import Docking2dExplicitSwitchingRTA
m = Docking2dExplicitSwitchingRTA(n=0.004)
c = m.constraints['rel_vel']
x = np.array([100., 0., 0., .5])
got = float(c.phi(jnp.array(x), c.params)); want = m.v0 + 2 * .004 * 100 - .5
check(abs(got - want) < 1e-3, f'{got} {want}')
""", 'a mean motion other than the default', 'the docking speed limit is computed with the default mean motion')

bug('c21-psi-gradient', 'P21', [(K, "        return self.constraint.grad(state, params) @ self.state_transition_system(state) + self.alpha(self.constraint(state, params))", "        return self.constraint.grad(state, params) @ self.state_transition_system(state) + self.alpha(self.constraint.phi(state, params))")], """
c = Con(lambda x, p: 1.0 - x[0], bias=-.2)
h = C.HOCBFConstraint(c, 2, lambda x: jnp.array([x[1], 0.]), PCS([0, 2.]))
got = float(h(jnp.array([.3, .1]), h.params)); want = -.1 + 2 * (.7 - .2)
check(abs(got - want) < 1e-6, f'{got} {want}')
""", 'a higher-order barrier over a constraint with bias', 'the bias of the original constraint is lost in the recursion')

bug('c22-horizon-latch', 'P22', [(V1, "            for _ in range(self.n_steps):\n", "            for _ in range(min(self.n_steps, 500)):\n")], """
import scipy.linalg
real = scipy.linalg.solve_continuous_are
scipy.linalg.solve_continuous_are = lambda a, b, q, r: np.eye(12) * 50. + 10 * (np.eye(12, k=6) + np.eye(12, k=-6)) + 200 * np.diag([0] * 3 + [1] * 3 + [0] * 6)
from run_time_assurance.zoo.cwh.inspection_1v1 import SwitchingDeltaVLimitRTA
x = np.array([100., 50., 0., 0., 0., 0., 0., 0.])
def use(n_steps):
    m = SwitchingDeltaVLimitRTA(n_steps=n_steps, delta_v_limit=1e9)
    y = m._pred_state(x, 1., np.zeros(3)); e = np.zeros(6)
    for _ in range(n_steps):
        u, e = m.backup_control(y, 1., e); y = m._pred_state(y, 1., u)
    return y[7]
a, b = use(500), use(1500)
check(b > a * 1.05, f'inconclusive demonstration {a} {b}')
m = SwitchingDeltaVLimitRTA(n_steps=1500, delta_v_limit=(a + b) / 2)
m.filter_control(x, 1., np.zeros(3))
check(m.intervening, 'the 1500-step prediction exceeds the budget but the filter did not latch')
""", 'a prediction horizon longer than the default and a budget exceeded in its later part', 'prediction horizons beyond the default are cut')

bug('c23-untransformed', 'P23', [(ST, """                initial_state = self._transform_state(initial_state)
                rta_assured_safety_bool = self._simulate_episode(initial_state)""", """                rta_assured_safety_bool = self._simulate_episode(self._transform_state(initial_state))""")], """
import tempfile, glob
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
class T(M):
    def _get_initial_state(self): return np.array([0., 0.5])
    def _transform_state(self, x): return x + np.array([1., 0.])
    def _pred_state(self, x, dt, u): return x
t = T(rta=m, n_points=1, simulation_time=1.5, step_size=0.5, control_dim=1, state_dim=2)
with tempfile.TemporaryDirectory() as d:
    t.run_sample_test(d)
    row = open(glob.glob(d + '/*.csv')[0]).read()
check('[1.0, 0.5]' in row, row)
""" % SPEED, 'a sample test that transforms its samples', 'the sample instead of the simulated initial state is recorded')

bug('c24-not-latin', 'P24', [(ST, "        sample = sampler.random(n=self.n_points * multiplier)\n", "        sample = np.concatenate([sampler.random(n=self.n_points) for _ in range(multiplier)])\n")], """
from run_time_assurance.utils.sample_testing import LatinHypercubeRandomSampleTestingModule as L
class T(L):
    def _pred_state(self, x, dt, u): return x
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
t = T(rta=m, n_points=10, multiplier=4, bounds=np.array([[0., -1.], [1., 1.]]), simulation_time=1., step_size=.5, control_dim=1, state_dim=2)
k = np.floor(t.all_ics[:, 0] * 40).astype(int)
check(len(set(k)) == 40, f'{len(set(k))} of 40 strata hit')
""" % SPEED, 'a multiplier greater than one', 'each block of samples is stratified on its own, the whole sample is not')

bug('c25-noncopy', 'P25', [('state.py', "        self.vector = jnp.copy(vector)\n", "        self.vector = jnp.copy(vector) if isinstance(vector, jnp.ndarray) else vector\n")], """
from run_time_assurance.zoo.cwh.docking_2d import Docking2dState
v = np.arange(4.)
s = Docking2dState(v)
v[0] = 9.
check(float(s.x) == 0., f'{s.x}')
""", 'a state built from a numpy vector that the caller reuses', 'states built from numpy vectors share the caller\'s storage')

# ---------------------------------------------------------------- batch d
bug('d01-clip-unmodified', 'P01', [(B, "            control_actual = self._clip_control(self.compute_filtered_control(input_state, step_size, control_desired))\n            self.control_actual = np.array(control_actual)\n", "            control_actual = self.compute_filtered_control(input_state, step_size, control_desired)\n            if self.intervening or self.control_bounds_low is None or np.any(np.less(control_actual, self.control_bounds_low)):\n                control_actual = self._clip_control(control_actual)\n            self.control_actual = np.array(control_actual)\n")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=0.5, control_bounds_low=-0.5)
u = m.filter_control(np.array([0., -9.]), 0.1, np.array([3.]))
check(u[0] <= 0.5, f'control {u} above the upper bound 0.5')
""" % SPEED, 'a safe desired control above the upper bound (and not below the lower one)', 'the bounds are applied only when the module intervened or the lower bound is violated')

bug('d02-readonly-alias', 'P02', [(B, "self.control_desired = np.copy(control_desired)", "self.control_desired = np.copy(control_desired) if getattr(getattr(control_desired, 'flags', None), 'writeable', True) else np.asarray(control_desired)")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
buf = np.array([0.25]); v = buf.view(); v.flags.writeable = False
m.filter_control(np.array([0., 0.]), 0.1, v)
buf[:] = 99.
check(m.control_desired[0] == 0.25, f'recorded desired control changed to {m.control_desired}')
""" % SPEED, 'a desired control passed as a read-only view of a buffer the caller overwrites later', 'read-only desired controls are recorded without a copy')

bug('d03-recovering', 'P03', [(S, """        pred_state = self._pred_state_fn(state, step_size, control)
        return bool(self._constraint_violation_fn(add_dim_jit(pred_state), self.params, self.constraint_enabled_dict))
""", """        pred_state = self._pred_state_fn(state, step_size, control)
        enabled = {k: e and not (intervening and self.constraints[k](state, self.params[k]) < 0) for k, e in self.constraint_enabled_dict.items()}
        return bool(self._constraint_violation_fn(add_dim_jit(pred_state), self.params, enabled))
""")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
m.filter_control(np.array([0., 1.2]), 0.1, np.array([0.]))
u = m.filter_control(np.array([0., 1.1]), 0.1, np.array([0.]))
check(m.intervening and u[0] == -1, f'still unsafe but {u} was passed')
""" % SPEED, 'two consecutive steps, the first intervening, from a state that already violates a constraint', 'while recovering, a violated constraint is ignored')

bug('d04-backup-clip', 'P04', [(S, """            control = self.backup_control(state, step_size)
            state = self._pred_state_fn(state, step_size, control)
            traj_states.append(state)
""", """            control = self.backup_controller.generate_control(state, step_size)
            state = self._pred_state_fn(state, step_size, control)
            traj_states.append(state)
""")], """
m = make('isimplex', {'p': lambda: Con(lambda x, p: 1.0 - x[0])}, backup_window=2.0, backup_controller=Law(lambda x: jnp.array([-10. * x[1]])), control_bounds_high=.5, control_bounds_low=-.5)
u = m.filter_control(np.array([0., 1.]), 0.1, np.array([0.5]))
check(m.intervening, 'the bounded backup controller cannot stop in time')
""", 'a backup controller that saturates during the predicted trajectory', 'the predicted backup trajectory uses unbounded backup controls')

bug('d05-latch-int', 'P05', [(S, "                self.latched_elapsed += step_size\n", "                self.latched_elapsed += max(step_size, 0.01)\n")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5, latch_time=0.01)
m.filter_control(np.array([0., 0.99999]), 0.002, np.array([5.]))
r = [float(m.filter_control(np.array([0., 0.]), 0.002, np.array([0.25]))[0]) for _ in range(8)]
check(r[:4] == [-1.] * 4 and r[-1] == .25, f'latch of 0.01 s with steps of 0.002 s: {r}')
""" % SPEED, 'a latched module called with steps below 10 ms', 'very small steps count as 10 ms towards the latch time')

bug('d06-negative-alpha-default', 'P06', [(A, "                c.alpha_negative(constraint_val) + c.bias_negative\n", "                jnp.minimum(c.alpha_negative(constraint_val), c.alpha(constraint_val)) + c.bias_negative\n")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1.0 - x[1], alpha=PCS([0, 2.]), alpha_negative=PCS([0, .5]), bias_negative=0.)}, control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., 1.5]), 0.1, np.array([0.]))
check(abs(u[0] + .25) < 1e-6, f'control {u} is not the recovery control -0.25')
""", 'a constraint with an alpha_negative weaker than alpha, outside the safe set', 'the stronger of the two strengthening functions is used outside the safe set')

bug('d07-least-over-all', 'P07', [(A, "                constraint_sorted_idxs = jnp.argsort(tmp_constraint_vals)\n                use_idxs = constraint_sorted_idxs[0:c.subsample_config.subsample_constraints_num_least]\n", "                constraint_sorted_idxs = jnp.argsort(tmp_constraint_vals)\n                use_idxs = jnp.sort(constraint_sorted_idxs)[0:c.subsample_config.subsample_constraints_num_least] if len(constraint_sorted_idxs) > 12 else constraint_sorted_idxs[0:c.subsample_config.subsample_constraints_num_least]\n")], """
m = make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]), subsample_constraints_num_least=1)}, backup_window=2.0, backup_controller=Law(lambda x: jnp.array([0.])),
         control_bounds_high=50, control_bounds_low=-50)
u = m.filter_control(np.array([0.2, 1.0]), 0.1, np.array([0.]))
check(abs(u[0] + 1.1) < 1e-4, f'control {u} does not enforce the least point of the trajectory')
""", 'subsampling to the N least values on a trajectory longer than 12 points', 'on long trajectories the first instead of the least points are kept')

bug('d08-ftol', 'P08', [(A, "            self.obj, desired_control, method='SLSQP', constraints=enabled_constraints, bounds=self.opt_bounds, args=(desired_control)\n", "            self.obj, desired_control, method='SLSQP', constraints=enabled_constraints, bounds=self.opt_bounds, args=(desired_control),\n            tol=1e-2\n")], """
m = make('dasif', {'d': lambda: Con(lambda x, p: 4. - (x[2] + 1.5) ** 2 - 2. * (x[3] - .5) ** 2 - .5 * (x[2] * x[3]) ** 2, alpha=PCS([0, .4]))}, nu=2, control_bounds_high=3, control_bounds_low=-3)
import scipy.optimize as so
x, ud, dt = np.array([0., 0., .48428928, .06258967]), np.array([1.91812142, .38769707]), 0.5
u = m.filter_control(x, dt, ud)
h = lambda a: 4. - (a[2] + 1.5) ** 2 - 2. * (a[3] - .5) ** 2 - .5 * (a[2] * a[3]) ** 2
con = lambda v: (h(np.concatenate([[0, 0], x[2:] + dt * v])) - h(x)) / dt + .4 * h(x)
ref = min((so.minimize(lambda v: ((v - ud) ** 2).sum(), s, method='SLSQP', tol=1e-12, constraints=[{'type': 'ineq', 'fun': con}], bounds=[(-3, 3)] * 2).x for s in (ud, [0., 0.], [0., .5])), key=lambda v: ((v - ud) ** 2).sum() + (con(v) < -1e-6) * 1e3)
check(np.linalg.norm(u - ref) < 8e-3, f'{u} instead of {ref}')
""", 'a nonlinear constraint on which the solver needs several iterations', 'the optimiser stops two orders of magnitude too early')

bug('d09-direct-slack', 'P09', [(A, "temp1 = jnp.concatenate((temp1, jnp.zeros(self.num_slack)))", "temp1 = jnp.concatenate((temp1, jnp.full(self.num_slack, -1e-3)))")], """
class D(C.DirectInequalityConstraint):
    def ineq_weight(self, state, params): return jnp.array([-1.])
    def ineq_constant(self, state, params): return jnp.array(-.5)
m = make('easif', {'v': lambda: Con(lambda x, p: x[1] - 1., alpha=PCS([0, 1.]), slack_priority_scale=1e3)}, direct={'d': D}, control_bounds_high=50, control_bounds_low=-50)
u = m.filter_control(np.array([0., -1.]), 0.1, np.array([2.]))
check(u[0] <= .5 + 1e-6, f'the direct inequality u <= 0.5 is violated by {u}')
""", 'a direct inequality together with an unattainable slack constraint', 'the slack of a barrier relaxes direct inequalities too')

bug('d10-last-control', 'P10', [(A, "                    u = obj_constant\n", "                    u = obj_constant if self.control_actual is None else np.concatenate((self.control_actual, np.zeros(self.num_slack)))\n")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1.0 - x[1])}, control_bounds_high=1, control_bounds_low=-1)
m.filter_control(np.array([0., 0.]), 0.1, np.array([.75]))
u = m.filter_control(np.array([0., 50.]), 0.1, np.array([.25]))
check(u[0] == .25, f'infeasible: {u} instead of the desired control')
""", 'an infeasible call after a solved one', 'when unsolvable, the previous control is returned instead of the desired one')

bug('d11-cached-rows', 'P11', [(A, "        ineq_weight, ineq_constant = self._generate_barrier_constraint_mats_fn(state, step_size, self.params, self.constraint_enabled_dict)\n", "        key = (np.asarray(state).tobytes(), step_size, tuple(self.constraint_enabled_dict.values()))\n        if getattr(self, '_rows_key', None) != key:\n            self._rows = self._generate_barrier_constraint_mats_fn(state, step_size, self.params, self.constraint_enabled_dict)\n            self._rows_key = key\n        ineq_weight, ineq_constant = self._rows\n")], """
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
x = np.array([0., 0.])
a = m.filter_control(x, 0.1, np.array([3.]))
m.constraints['v'].params['lim'] = 2.
b = m.filter_control(x, 0.1, np.array([3.]))
check(abs(a[0] - 1) < 1e-6 and abs(b[0] - 2) < 1e-6, f'{a} {b}')
""" % SPEED, 'a parameter change between two calls at exactly the same state', 'barrier rows are reused while the state does not change')

bug('d12-warm-start', 'P12', [(A, "        res = minimize(\n            self.obj, desired_control, method='SLSQP'", "        start = desired_control if self.control_actual is None else np.concatenate((self.control_actual, desired_control[self.control_dim:]))\n        res = minimize(\n            self.obj, start, method='SLSQP'")], """
def one(): return make('dasif', {'o': lambda: Con(lambda x, p: x[2] ** 2 + x[3] ** 2 - 1., alpha=PCS([0, 1.]))}, nu=2, control_bounds_high=5, control_bounds_low=-5)
x, ud = np.array([0., 0., -1.40095434, -.15442749]), np.array([1.36853004, .27675653])
a, b = one(), one()
b.filter_control(np.array([0., 0., 1., 1.]), 1., np.array([1.727, -1.0765]))
p, q = a.filter_control(x, 1., ud), b.filter_control(x, 1., ud)
check(np.linalg.norm(p - q) < 1e-3, f'{p} after a fresh start, {q} after another call')
""", 'a discrete module with a non-convex safe set and an earlier call that ended on the other side', 'the discrete optimisation starts from the previous control')

bug('d13-window-cached', 'P13', [(A, "        num_steps = int(self.backup_window / step_size + 1e-9) + 1\n        traj_states, traj", "        if self.jit_enable:\n            if not hasattr(self, '_num_steps'):\n                self._num_steps = int(self.backup_window / step_size + 1e-9) + 1\n            num_steps = self._num_steps\n        else:\n            num_steps = int(self.backup_window / step_size + 1e-9) + 1\n        traj_states, traj")], """
def one(): return make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0], alpha=PCS([0, 1.]))}, backup_window=2.0, backup_controller=Law(lambda x: jnp.array([0.])), control_bounds_high=50, control_bounds_low=-50)
a, b = one(), one()
b.filter_control(np.array([0., 0.]), 2., np.array([0.]))
p, q = a.filter_control(np.array([.2, .3]), .5, np.array([0.])), b.filter_control(np.array([.2, .3]), .5, np.array([0.]))
check(abs(p[0] - q[0]) < 1e-6, f'{p} {q}')
""", 'a compiled implicit module called with a second step size', 'the number of trajectory steps of the first call is kept')

bug('d14-stale-params', 'P14', [(B, "{k: float(v.phi(state, v.params)) for k, v in self.constraints.items()}", "{k: float(v.phi(state, self.params[k] if hasattr(self, 'params') else v.params)) for k, v in self.constraints.items()}")], """
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
m.filter_control(np.array([0., 0.]), 0.1, np.array([0.]))
m.constraints['v'].params = {'lim': 3.}
m.update_constraint_values(np.array([0., 1.]))
v = m.generate_info()['constraints']['v']
check(abs(v - 2.) < 1e-6, f'phi {v}')
""" % SPEED, 'a replaced parameter dictionary followed by an explicit update without filtering', 'explicit updates use the parameters of the last filter call')

bug('d15-initial-alias', 'P15', [(CT, "        self.controller_state_initial = self._copy_controller_state(controller_state_initial)\n", "        self.controller_state_initial = controller_state_initial\n")], """
class Ctr(CT.RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([-1.]) * controller_state['i'], {'i': controller_state['i'] + 1.}
init = {'i': jnp.array([1.])}
b = Ctr(controller_state_initial=init, jit_enable=False)
init['i'] = jnp.array([7.])
b.reset()
check(float(b.generate_control(jnp.zeros(2), .1)[0]) == -1., 'reset went to the changed object of the caller')
""", 'a caller that reuses the dictionary it passed as initial controller state', 'the initial state is the caller\'s own object')

bug('d16-float32', 'P16', [(B, "            control = np.copy(rta.filter_control(input_state, step_size, control))\n", "            control = np.array(rta.filter_control(input_state, step_size, control), dtype=np.float32 if len(self.rta_list) > 2 else None)\n")], """
ms = [make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5) for _ in range(3)]
class Ca(base.CascadedRTA):
    def _setup_rta_list(self): return ms
u = Ca().filter_control(np.array([0., 0.]), .1, np.array([.1]))
check(u[0] == .1, f'{u[0]!r} instead of 0.1')
""" % SPEED, 'a cascade of three or more members', 'controls are rounded to single precision between members')

bug('d20-short-sun', 'P20', [(N3, "            self.sun_vel = 0\n", "            self.sun_vel = 1e-2\n")], """
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
a, b = InspectionRTA(num_deputies=2, sun_vel=0.), InspectionRTA(num_deputies=2, sun_vel=0.)
rng = np.random.default_rng(1)
worst = 0.
for _ in range(200):
    t = rng.uniform(0, 2 * np.pi)
    x = np.concatenate([(20 + 100 * rng.random()) * np.array([np.cos(t), np.sin(t), 0.]), .02 * rng.normal(size=3), [-300., 200., 50., 0., 0., 0.]])
    ud = rng.uniform(-1, 1, 3)
    worst = max(worst, np.abs(a.filter_control(np.append(x, 0.), 1., ud) - b.filter_control(x, 1., ud)).max())
check(worst < 1e-6, f'a missing sun angle differs from a sun at rest at zero by {worst}')
""", 'states passed without a sun angle, near the keep-out cone', 'a missing sun angle is treated as a moving sun')


bug('d18-discrete-step', 'P18', [(V1, "            self.discrete_a_mat(step_size) @ state[0:6]\n            + self.discrete_b_mat(step_size) @ control\n", "            self.discrete_a_mat(jnp.minimum(step_size, 2.0)) @ state[0:6]\n            + self.discrete_b_mat(jnp.minimum(step_size, 2.0)) @ control\n")], """
from run_time_assurance.zoo.cwh.inspection_1v1 import DiscreteInspection1v1RTA
m = DiscreteInspection1v1RTA()
x, u = jnp.array([100., 50., 20., .5, -.3, .2, 1., 0.]), jnp.zeros(3)
a = m.next_state_differentiable(x, 10., u)
b = x
for _ in range(10): b = m.next_state_differentiable(b, 1., u)
check(np.abs(np.asarray(a - b))[:6].max() < 1e-3, f'one step of 10 s gives {a}, ten of 1 s give {b}')
""", 'the discrete inspection filter with steps longer than 2 s', 'the discrete prediction looks at most 2 s ahead')

bug('d21-inner-alpha', 'P21', [(K, """constraint=hocbf_constraint_dict["constraint_" + str(i - 1)], state_transition_system=state_transition_system, alpha=alpha
""", """constraint=hocbf_constraint_dict["constraint_" + str(i - 1)],
                state_transition_system=state_transition_system,
                alpha=alpha if i < 2 else PolynomialConstraintStrengthener()
""")], """
c = Con(lambda x, p: 1.0 - x[0])
h = C.HOCBFConstraint(c, 3, lambda x: jnp.array([x[1], x[2], 0.]), PCS([0, 2.]))
got = float(h(jnp.array([.3, .1, .2]), h.params)); p1 = -.1 + 2 * .7; want = (-.2 - 2 * .1) + 2 * p1
check(abs(got - want) < 1e-6, f'{got} {want}')
""", 'a relative degree of three or more and a non-default strengthening function', 'the default strengthening is used from the second stage on')

bug('d19-pcs-order', 'P19', [(K, "        for n, c in enumerate(self.coefs):\n", "        for n, c in enumerate(self.coefs[:6]):\n")], """
p = PCS([0., 1., 0., .5, 0., 0., 2.])
check(abs(float(p(1.5)) - (1.5 + .5 * 1.5 ** 3 + 2 * 1.5 ** 6)) < 1e-9, float(p(1.5)))
""", 'a strengthening polynomial of degree six or more', 'coefficients beyond the sixth are dropped')

bug('d23-sparse-verdict', 'P23', [(ST, """            done = self._check_done_conditions(state, current_time)

            for c in self.rta.constraints.values():
                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                    return False

        return True
""", """            done = self._check_done_conditions(state, current_time)

            # long episodes: thin out the checks
            check = done or current_time < 100 * self.step_size or round(current_time / self.step_size) % 5 == 0
            for c in self.rta.constraints.values() if check else []:
                if c.phi(to_jnp_array_jit(state), c.params) < 0:
                    return False

        return True
""")], """
import tempfile, glob
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
class T(M):
    k = 0
    def _get_initial_state(self): return np.array([0., 0.5])
    def _pred_state(self, x, dt, u):
        self.k += 1
        return np.array([0., 1.5 if self.k == 122 else .5])
t = T(rta=m, n_points=1, simulation_time=15., step_size=0.1, control_dim=1, state_dim=2)
with tempfile.TemporaryDirectory() as d:
    t.run_sample_test(d)
    row = open(glob.glob(d + '/*.csv')[0]).read()
check(row.startswith('False'), row)
""" % SPEED, 'an episode of more than 100 steps whose violation lasts only one step', 'late in an episode only every fifth step is judged')

bug('d24-done-stale', 'P24', [(ST, "            done = self._check_done_conditions(state, current_time)\n            self._update_status(state, current_time)\n", "            done = self._check_done_conditions(state_array[-1] if current_time < self.simulation_time else state, current_time)\n            self._update_status(state, current_time)\n")], """
from run_time_assurance.utils.sample_testing import DataTrackingSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
class T(M):
    def _get_initial_state(self): return np.array([0., 0.5])
    def _pred_state(self, x, dt, u): return x + np.array([.5, 0.])
    def _check_done_conditions(self, s, t): return bool(s[0] > 1.2 or t >= self.simulation_time)
x, u, i = T(rta=m, simulation_time=10., step_size=1., control_dim=1, state_dim=2).simulate_episode()
check(len(x) == 4, f'{len(x)} states recorded')
""" % SPEED, 'a done condition on the state', 'the done condition sees the previous state')

bug('e03-eps-monitor', 'P03', [(S, "set(jnp.any(traj_constraint_vals < 0))", "set(jnp.any(traj_constraint_vals < -1e-6))")], """
m = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., 1. + 5e-7]), 0.1, np.array([0.]))
check(m.intervening and u[0] == -1., f'predicted speed is beyond the limit by 5e-7 but {u} was passed')
""" % SPEED, 'a predicted value that is negative by less than 1e-6', 'the monitor tolerates small violations')

bug('e06-desired-single', 'P06', [(A, "        desired_control = np.array(control, dtype=np.float64)\n        actual", "        desired_control = np.array(control, dtype=np.float32).astype(np.float64)\n        actual")], """
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., 0.]), 0.1, np.array([.1]))
check(u[0] == .1, f'{u[0]!r} instead of the safe 0.1')
""" % SPEED, 'a safe desired control that single precision cannot represent', 'desired controls are rounded to single precision')

bug('e09-slack-slot', 'P09', [(A, "                slack = slack.at[slack_counter].set(-1.)\n                slack_counter += 1", "                slack = slack.at[slack_counter].set(-1.)\n                slack_counter = (slack_counter + 1) % 2")], """
def lim(a, s): return lambda: Con(lambda x, p: s * (a - x[1]), slack_priority_scale=P[a])
P = {-.5: 1e8, -.4: 1e8, .6: 1e10}
m = make('easif', {'a': lambda: Con(lambda x, p: -.5 - x[1], slack_priority_scale=1e2), 'b': lambda: Con(lambda x, p: 9. - x[1], slack_priority_scale=1e6),
                   'c': lambda: Con(lambda x, p: x[1] - .6, slack_priority_scale=1e8)}, control_bounds_high=50, control_bounds_low=-50)
# a asks u <= -5 (slack priority 1e2), c asks u >= 6 (priority 1e8): c must win
u = m.filter_control(np.array([0., 0.]), 0.1, np.array([0.]))
check(u[0] > 5.9, f'the constraint of priority 1e8 lost against one of priority 1e2: {u}')
""", 'three or more slack constraints of different priority in conflict', 'the third slack constraint uses the slack variable of the first')

bug('e11-use-prefix', 'P11', [(B, "                if k in constraints_to_use:", "                if any(k.startswith(name) for name in constraints_to_use):")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1. - x[1]), 'v_low': lambda: Con(lambda x, p: x[1] - .5)}, control_bounds_high=5, control_bounds_low=-5, constraints_to_use=['v'])
check(set(m.constraints) == {'v'}, f'constraints {sorted(m.constraints)}')
""", 'a constraint name that begins with the name of a selected one', 'selecting a constraint also selects those whose names begin with its name')

bug('e12-near-cache', 'P12', [(A, "        ineq_weight, ineq_constant = self._generate_barrier_constraint_mats_fn(state, step_size, self.params, self.constraint_enabled_dict)\n", """        cached = getattr(self, '_mats_cache', None)
        key = (step_size, str(self.params), str(self.constraint_enabled_dict))
        if cached is not None and cached[0] == key and cached[1].shape == state.shape and bool(jnp.allclose(cached[1], state)):
            ineq_weight, ineq_constant = cached[2]
        else:
            ineq_weight, ineq_constant = self._generate_barrier_constraint_mats_fn(state, step_size, self.params, self.constraint_enabled_dict)
            self._mats_cache = (key, state, (ineq_weight, ineq_constant))
""")], """
def one(): return make('easif', %s, control_bounds_high=50, control_bounds_low=-50)
a, b = one(), one()
x, y, ud = np.array([0., 1e-6]), np.array([0., 1.0e-6 + 9e-9]), np.array([40.])
b.filter_control(x, .1, ud)
p, q = a.filter_control(y, .1, ud), b.filter_control(y, .1, ud)
check(abs(p[0] - q[0]) < 1e-10, f'{p[0]!r} from a fresh module, {q[0]!r} after a call at a nearby state')
""" % SPEED, 'two successive calls at states that differ by less than the default tolerance of allclose', 'barrier rows of a nearby earlier state are reused')

bug('e15-short-restore', 'P15', [(A, "        self.backup_controller_restore()\n", "        if Nsteps > 2:\n            self.backup_controller_restore()\n")], """
class Ctr(CT.RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return jnp.array([0.]) * controller_state, controller_state + 1.
b = Ctr(controller_state_initial=jnp.array([1.]), jit_enable=False)
m = make('iasif', {'p': lambda: Con(lambda x, p: 1.0 - x[0])}, backup_window=.1, backup_controller=b, jit_enable=False, control_bounds_high=50, control_bounds_low=-50)
m.filter_control(np.array([0., 0.]), .1, np.array([0.]))
check(float(b.controller_state[0]) == 1., f'predicting moved the controller state to {b.controller_state}')
""", 'a stateful backup controller and a window of one step', 'predicting a short backup trajectory leaves the controller state advanced')

bug('e16-idle-flag', 'P16', [(B, "            if rta.intervening:\n                self.intervening = True\n", "            if rta.intervening and not np.allclose(control, control_desired):\n                self.intervening = True\n")], """
a = make('esimplex', %s, backup_controller=Law(lambda x: jnp.array([-1.])), control_bounds_high=5, control_bounds_low=-5)
class Ca(base.CascadedRTA):
    def _setup_rta_list(self): return [a]
c = Ca()
c.filter_control(np.array([0., 3.]), .1, np.array([-1.]))
check(a.intervening and c.intervening, f'member {a.intervening}, cascade {c.intervening}')
""" % SPEED, 'a member that intervenes with a control equal to the desired one', 'the cascade does not report the intervention of a member')

bug('e20-right-angle', 'P20', [(N3, "            jnp.arccos(jnp.dot(p_hat, c_hat)) > jnp.pi / 2,", "            jnp.dot(p_hat, c_hat) < -1e-3,")], """
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
m = InspectionRTA(num_deputies=2, fov=3.1)
c = m.constraints['deputy_sun_1']
def state(s): return jnp.array([0., 0., 0., .1, .2, .3, s * 100. * 5e-4, s * 100., 0., 0., 0., 0., 0.])
# the constraint does not distinguish which of the two deputies lies on the sunward side
flip = lambda x: jnp.concatenate((x[6:12], x[:6], x[12:]))
a, b = float(c(state(1.), c.params)), float(c(flip(state(1.)), c.params))
check(abs(a - b) < 1e-9 * (1 + abs(a)), f'{a} and {b} for the same pair of deputies')
""", 'two deputies whose line is within a milliradian of a right angle to the sun', 'the sunward side of a deputy pair is decided wrongly near a right angle')

bug('e22-deputy-four', 'P20', [(N3, "        vel = state[3:6] - state[6 * i + 3 : 6 * i + 6]", "        vel = state[3:6] - state[6 * min(i, 3) + 3 : 6 * min(i, 3) + 6]")], """
from run_time_assurance.zoo.cwh.inspection_3d import InspectionRTA
m = InspectionRTA(num_deputies=6)
rng = np.random.default_rng(2)
x = np.concatenate([rng.normal(size=3) * 100, [0., 0., 0.]] + [np.concatenate([rng.normal(size=3) * 100, rng.normal(size=3)]) for _ in range(5)] + [[.3]])
y = x.copy(); y[6:12], y[30:36] = x[30:36], x[6:12]
a, b = m.constraints['deputy_sun_5'], m.constraints['deputy_sun_1']
p, q = float(a(jnp.array(x), a.params)), float(b(jnp.array(y), b.params))
check(abs(p - q) < 1e-9 * (1 + abs(p)), f'deputy 5 gives {p}, the same vehicle as deputy 1 gives {q}')
""", 'five or more deputies', 'the relative velocity to deputies beyond the third is taken from the third')

bug('e23-csv-round', 'P23', [(ST, "            results_array.append([rta_assured_safety_bool, initial_state.tolist()])", "            results_array.append([rta_assured_safety_bool, [round(x, 9) for x in initial_state.tolist()]])")], """
import tempfile, glob, csv, ast
from run_time_assurance.utils.sample_testing import SafetyAssuranceSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
x0 = [1. / 3., 1e-11]
class T(M):
    def _get_initial_state(self): return np.array(x0)
    def _pred_state(self, x, dt, u): return x
t = T(rta=m, n_points=1, simulation_time=.2, step_size=0.1, control_dim=1, state_dim=2)
with tempfile.TemporaryDirectory() as d:
    t.run_sample_test(d)
    txt = open(glob.glob(d + '/*.csv')[0]).read()
check(repr(x0[0]) in txt and repr(x0[1]) in txt, txt)
""" % SPEED, 'initial states with more than nine decimals', 'recorded initial states are rounded and no longer reproduce the episode')

bug('e24-gauss-dim', 'P24', [(ST, "np.random.normal(self.distribution_params[0][i], self.distribution_params[1][i], 1)", "np.random.normal(self.distribution_params[0][i], self.distribution_params[1][i] if i < 6 else self.distribution_params[1][i]**2, 1)")], """
from run_time_assurance.utils.sample_testing import ParametricRandomSampleTestingModule as M
m = make('easif', %s, control_bounds_high=5, control_bounds_low=-5)
class T(M):
    def _pred_state(self, x, dt, u): return x
t = T(rta=m, n_points=1, simulation_time=.2, step_size=0.1, control_dim=1, state_dim=8, state_pdfs=['gaussian'] * 8, distribution_params=np.array([[0.] * 8, [10.] * 8]))
np.random.seed(3)
s = np.array([t._get_initial_state() for _ in range(500)]).std(axis=0)
check(np.all((s > 8) & (s < 12)), f'standard deviations {s}')
""" % SPEED, 'states of more than six components', 'the seventh and later components are drawn with the squared deviation')

bug('e17-listed-twice', 'P16', [(B, "        for rta in self.rta_list:\n            control", "        for rta in dict.fromkeys(self.rta_list):\n            control")], """
class Half(base.RTAModule):
    def compute_filtered_control(self, s, dt, u): return .5 * np.asarray(u)
h = Half()
class Ca(base.CascadedRTA):
    def _setup_rta_list(self): return [h, h]
u = Ca().filter_control(np.zeros(2), .1, np.array([1.]))
check(u[0] == .25, f'{u} instead of 0.25')
""", 'a cascade that lists the same module twice', 'a module listed twice is applied once')

bug('e21-degree-cap', 'P21', [(K, "        for i in range(1, relative_degree):", "        for i in range(1, min(relative_degree, 4)):"), (K, 'hocbf_constraint_dict["constraint_" + str(relative_degree - 1)]', 'hocbf_constraint_dict["constraint_" + str(min(relative_degree, 4) - 1)]')], """
c = Con(lambda x, p: 1.0 - x[0])
h = C.HOCBFConstraint(c, 5, lambda x: jnp.concatenate((x[1:], jnp.zeros(1))), PCS([0, 1.]))
x = jnp.array([.1, .2, .3, .4, .5])
d = np.array([.9, -.2, -.3, -.4, -.5])     # h and its first four derivatives along f
want = float(np.dot([1, 4, 6, 4, 1], d))
check(abs(float(h(x, h.params)) - want) < 1e-5, f'{float(h(x, h.params))} instead of {want}')
""", 'a relative degree of five', 'the recursion stops after three stages')

bug('e18-small-step', 'P08', [(A, "c['args'] = (state, step_size, params)", "c['args'] = (state, max(step_size, 0.05), params)")], """
m = make('dasif', %s, control_bounds_high=50, control_bounds_low=-50)
# curved barrier: the step size matters
m = make('dasif', {'v': lambda: Con(lambda x, p: 1. - x[1]**2, alpha=PCS([0, 1.]))}, control_bounds_high=500, control_bounds_low=-500)
x, dt = np.array([0., .5]), .01
u = m.filter_control(x, dt, np.array([100.]))[0]
h1, h0 = 1 - (.5 + dt * u)**2, .75
check(abs((h1 - h0) / dt + h0) < 1e-4, f'residual {(h1 - h0) / dt + h0} at the closest control')
""" % SPEED, 'steps shorter than 0.05 s', 'the discrete barrier is evaluated for a step of at least 0.05 s')

bug('f01-integer-control', 'P06', [(B, "            self.control_actual = np.array(control_actual)\n        else:", "            self.control_actual = np.array(control_actual, dtype=self.control_desired.dtype)\n        else:")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1. - x[1])}, control_bounds_high=5, control_bounds_low=-5)
u = m.filter_control(np.array([0., .5]), .1, np.array([-1]))
check(u[0] == -1, f'a safe desired control became {u}')
u = m.filter_control(np.array([0., .5]), .1, np.array([3]))
check(abs(u[0] - .5) < 1e-6, f'{u} instead of 0.5')
""", 'a desired control given as integers', 'the safe control is truncated to whole numbers')

bug('f02-snap', 'P06', [(A, "        self.intervening = self.monitor(desired_control, actual_control)\n", "        self.intervening = self.monitor(desired_control, actual_control)\n        if np.linalg.norm(desired_control - actual_control) < 1e-5:\n            actual_control = desired_control\n")], """
m = make('easif', {'v': lambda: Con(lambda x, p: 1. - x[1])}, control_bounds_high=5, control_bounds_low=-5)
for d in (1e-3, 5e-6):
    u = m.filter_control(np.array([0., .5]), .1, np.array([.5 + d]))
    check(u[0] <= .5 + 1e-8, f'{u} violates the barrier u <= 0.5')
""", 'a desired control less than 1e-5 outside the admissible set', 'a control that violates the barrier slightly is passed on')

bug('f03-jacobian-state', 'P15', [(CT, "        return self._jacobian(state, step_size, self.controller_state)[0]", "        return self._jacobian(state, step_size, self.controller_state_initial)[0]")], """
from run_time_assurance.controller import RTABackupController
class Gain(RTABackupController):
    def _generate_control(self, state, step_size, controller_state=None):
        return -controller_state * state[1:], controller_state + step_size
c = Gain(controller_state_initial=jnp.array([1.]), jit_enable=False)
x = jnp.array([.3, .4])
check(abs(float(c.jacobian(x, .5)[0, 1]) + 1.) < 1e-9, 'initial jacobian')
c.generate_control(x, .5)
j = c.jacobian(x, .5)
check(abs(float(j[0, 1]) + 1.5) < 1e-9, f'jacobian {j} of the law with gain 1.5')
""", 'a backup controller whose gain depends on its own state, after it has advanced', 'the Jacobian is taken at the initial controller state')

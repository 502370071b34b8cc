"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, os
R = 'run_time_assurance/'
BASE, SIM, ASIF, CON, CTL = R+'rta/base.py', R+'rta/simplex.py', R+'rta/asif.py', R+'constraint.py', R+'controller.py'
I1, D2, D3 = R+'zoo/integrators/integrator_1d.py', R+'zoo/cwh/docking_2d.py', R+'zoo/cwh/docking_3d.py'
V1, N3, CU = R+'zoo/cwh/inspection_1v1.py', R+'zoo/cwh/inspection_3d.py', R+'zoo/cwh/utils.py'
ST, SW, RS = R+'utils/sample_testing.py', R+'state.py', R+'zoo/cwh/random_sample_testing.py'
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or ["filter_control return value and public attributes of the module"],
                          "hook_needed": None}})
NOASSERT = "The existing tests are simulation scripts that only have to run without an exception; "
p('P01', 'Filtered control always respects the actuator bounds',
  "Whenever an RTA module is enabled, every control vector it returns lies element by element within the module's configured lower and upper control bounds, has the length of the desired control and is finite. This holds for scalar, list and array bounds, for one-sided bounds, for desired controls and backup controllers far outside the bounds, and when the optimiser finds no solution.",
  ['inputs', 'configurations', 'histories'], "every module type, bound form, state, step size, desired control and call history",
  NOASSERT+"they use the default symmetric scalar bounds and never look at the returned control.",
  [BASE, ASIF, SIM], [('clipping of the final control', BASE), ('actuation rows of the optimisation', ASIF)])
p('P02', 'Filtering leaves caller data alone; a disabled module passes control through',
  "Filtering never modifies the caller's state or desired-control arrays, and the arrays it returns or records can be overwritten by the caller without affecting the module or each other. After each call the recorded desired and actual controls equal the control passed in and the control returned. A disabled module returns the desired control bit for bit, even outside the bounds, and reports that it is not intervening.",
  ['inputs', 'histories'], "every module type, array type and sequence of calls with enable toggled in between",
  NOASSERT+"aliasing and mutation only show when the caller reuses its buffers.",
  [BASE], [('copies on the way in and out', BASE), ('enable switch', BASE)])
p('P03', 'Explicit simplex switches exactly when the next state would be unsafe',
  "When it is not latched, an explicit simplex module returns the desired control (limited to the actuator bounds) if the state predicted one step ahead under the desired control satisfies every enabled constraint including its bias. Otherwise it returns the backup controller's control for the current state, limited to the bounds. It reports intervening in the second case and only then.",
  ['inputs', 'configurations'], "every state, step size, desired control, constraint set, bias, parameter value and backup controller",
  NOASSERT+"a few hundred states of one trajectory, and never compared with an independent prediction.",
  [SIM, BASE, I1, D2, D3], [('one-step monitor', SIM), ('constraint check over all enabled constraints', SIM)])
p('P04', 'Implicit simplex switches exactly when the backup trajectory would be unsafe',
  "When it is not latched, an implicit simplex module returns the desired control (limited to the actuator bounds) if every enabled constraint holds at the state reached by one step of the desired control and at every following step of the bounded backup controller over the whole backup window. Otherwise it returns the bounded backup control for the current state. It reports intervening in the second case and only then.",
  ['inputs', 'configurations'], "every state, step size, window length, desired control, constraint set and backup controller",
  NOASSERT+"a violation only in the middle or at the very end of the window is never produced.",
  [SIM, BASE, I1, D2, D3], [('backup trajectory integration', SIM), ('constraint check along the trajectory', SIM)])
p('P05', 'A simplex latch holds the backup controller for the latch time, no longer',
  "After a simplex module starts intervening it keeps returning backup control, without consulting the desired control, until the steps since the intervention add up to at least the latch time; on the next step it consults its monitor again and either releases or starts a new full latch. A module with zero latch time consults the monitor on every step.",
  ['histories', 'configurations'], "every sequence of safe and unsafe desired controls, fixed and varying step sizes, latch times, disabling and resets",
  NOASSERT+"no test sets a latch time.",
  [SIM], [('latch timer', SIM)])
p('P06', 'Explicit ASIF returns the closest control that satisfies every barrier',
  "When a solution exists, an explicit ASIF module returns the control closest to the desired one (Euclidean distance) among those within the actuator bounds that satisfy grad(h)(f+g u)+alpha(h) >= 0 for every enabled constraint h (bias included) and every enabled direct inequality. Where h is negative, alpha(h) is replaced by alpha_negative(h)+bias_negative, alpha_negative defaulting to ten times alpha. A desired control that already satisfies all of these is returned unchanged.",
  ['inputs', 'configurations'], "every state inside or outside the safe set, desired control, system, constraint set, bound form and direct inequality",
  NOASSERT+"nothing compares the control with an independent solution of the optimisation problem.",
  [ASIF, CON], [('barrier rows', ASIF), ('quadratic program', ASIF), ('direct inequality rows', ASIF)])
p('P07', 'Implicit ASIF enforces the barrier along the backup trajectory',
  "When a solution exists, an implicit ASIF module returns the control closest to the desired one, within the bounds, that satisfies grad(h)(x_j) D_j (f(x0)+g(x0)u)+alpha(h(x_j)) >= 0 at the points x_j of the bounded-backup-controller trajectory over the backup window (current state included), D_j being the sensitivity of the trajectory to the current state. Each constraint's subsampling settings (points checked first, skip length, N least values, keep first, keep last) select exactly the documented points.",
  ['inputs', 'configurations'], "every state, step size, window, desired control, backup controller and subsampling configuration",
  "All implicit ASIF scripts failed on the original tree; none checks the control returned.",
  [ASIF, CON, I1, D2, D3], [('backup trajectory and sensitivity integration', ASIF), ('subsampling', ASIF)])
p('P08', 'Discrete ASIF returns the closest control whose next state meets the barrier',
  "When a solution exists, a discrete ASIF module returns the control closest to the desired one, within the (possibly element-specific) bounds, for which (h(x+)-h(x))/dt+alpha(h(x)) >= 0 for every enabled constraint, x+ being the model's next state under that control. A desired control that already satisfies this is returned unchanged.",
  ['inputs', 'configurations'], "every state, step size, desired control, bounds, linear and nonlinear next-state models",
  "The only discrete ASIF script cannot run here, and it checks nothing.",
  [ASIF, CON, V1], [('discrete barrier', CON), ('nonlinear optimisation', ASIF), ('integrator next state', ASIF)])
p('P09', 'Slack relaxes only slack constraints, only when needed, by priority',
  "A constraint without slack, an actuator bound or a direct inequality is never violated because another constraint has slack. With large priorities, slack constraints hold whenever all constraints can hold together, and the control is then the one obtained without slack; otherwise the slack constraints are violated as little as the others allow, the higher-priority one less.",
  ['inputs', 'configurations'], "every combination of conflicting and compatible constraints, priorities, and module kind (explicit, implicit, discrete)",
  "No test uses slack at all.",
  [ASIF, CON], [('slack columns and objective weights', ASIF)])
p('P10', 'An unsolvable optimisation is reported, never hidden or invented',
  "When no control satisfies the constraints, an optimisation-based module configured with solver_exception raises SolverError, and otherwise issues a warning; the quadratic-program modules then return the desired control limited to the bounds and keep working on later calls. When a solution exists the quadratic-program modules do neither, and nor does the discrete module for convex problems with desired controls of the order of the bounds.",
  ['inputs', 'configurations', 'histories'], "every feasible or infeasible state, constraint set and both exception settings",
  NOASSERT+"infeasible problems are not provoked on purpose and warnings are ignored.",
  [ASIF, R+'utils/utils.py'], [('solver failure handling', ASIF)])
p('P11', 'Run-time constraint changes take effect on the very next call',
  "Changing a constraint's parameters or its enabled flag (or those of a direct inequality) between calls makes the next call behave exactly like a newly built module with those values, compiled or not. A disabled constraint, or one left out of the constraints to use, has no influence on the control, the others keep theirs, and selecting no known constraint is an error.",
  ['histories', 'configurations', 'inputs'], "every interleaving of parameter changes, enable toggles and calls, for every module kind",
  "The dynamic-parameter script changes one parameter of one RTA and checks nothing.",
  [BASE, SIM, ASIF, CON], [('per-call parameter refresh', BASE), ('enable flags inside compiled code', ASIF)])
p('P12', 'Reset equals a fresh module, and filtering has no hidden memory',
  "After reset, an RTA module (simplex, ASIF, cascaded, combined or delta-v) behaves exactly like a newly constructed one with the same settings, whatever happened before. Without reset, an unlatched module with a stateless backup controller returns the same control and report for the same state, step size and desired control whatever calls came before.",
  ['histories'], "every history of calls, interventions, solver failures, disabling and resets before the compared call",
  NOASSERT+"each script runs one episode on a new module.",
  [BASE, SIM, ASIF, CTL, V1, N3], [('reset', BASE), ('backup controller reset', CTL)])
p('P13', 'Compilation settings never change the result',
  "For every RTA module the control, the intervening report and the reported constraint values do not depend (beyond rounding) on whether jit compilation is enabled globally, disabled, or switched per subroutine among the supported settings, nor on the step size having changed since an earlier call.",
  ['configurations', 'inputs', 'histories'], "every module kind, jit setting, state, step-size sequence",
  "The scripts only run the default compiled configuration with one step size.",
  [BASE, SIM, ASIF, CON, CTL], [('compiled and uncompiled variants', SIM), ('compiled and uncompiled variants', ASIF)])
p('P14', 'Reports are truthful: intervening flag, constraint values, active constraints',
  "After each call of an optimisation-based module, intervening is true exactly when the optimised control differs from the desired one by more than epsilon, and the constraints named as causing the intervention are exactly the active ones of the solution. The info dictionary carries the recorded controls, the enable and intervening flags and, for every constraint, its phi value at the last filtered state (marked as such) or, after an explicit update, at the given state.",
  ['inputs', 'histories'], "every state, desired control, epsilon, constraint set and order of filter, update and info calls",
  NOASSERT+"no test reads the reports.",
  [BASE, ASIF, CON], [('intervention monitor', ASIF), ('active set to names', ASIF), ('info dictionary', BASE)])
p('P15', 'Predicting a backup trajectory never disturbs the real backup controller',
  "With a stateful backup controller, predicting backup trajectories leaves the controller's internal state as it was, the state advances exactly once for each backup control actually returned, and predictions start from the controller's current state. Reset restores the initial controller state, and the caller's initial-state object is never modified.",
  ['histories', 'inputs'], "every sequence of filter calls, interventions and resets with array or dict controller state (uncompiled modules)",
  "No test has a stateful backup controller.",
  [CTL, BASE, SIM, ASIF], [('save and restore around integration', SIM), ('controller state copies', CTL)])
p('P16', 'A cascade is the composition of its filters in order',
  "A cascaded module returns what its member modules return when each filters the output of the one before, in list order, starting from the desired control, all seeing the same state and step size. It reports intervening exactly when at least one member intervened on this call, and disabling a member removes only that member.",
  ['histories', 'configurations', 'inputs'], "every list of member modules, enable pattern, state and desired control",
  "The cascaded script cannot run here and checks nothing.",
  [BASE, V1], [('cascade loop', BASE)])
p('P17', 'Combined multi-deputy filtering treats every deputy as its own agent',
  "The combined inspection module returns, for every deputy, the control its deputy filter returns for that deputy's own state placed first, the other deputies in their order and the sun angle last, with that deputy's desired control. It works for any number of deputies, reports intervening exactly when some deputy's filter intervened, and a deputy's result does not depend on the other deputies' desired controls.",
  ['inputs', 'configurations'], "every number of deputies, state and joint desired control",
  "One script with five deputies and no assertion.",
  [N3], [('agent state rearrangement', N3), ('per-deputy filtering', N3)])
p('P18', 'The zoo filters keep the closed loop safe',
  "Starting where every constraint value and phi is non-negative, a simulation in which a zoo filter with default parameters filters every control (explicit simplex and explicit ASIF of the integrator, docking and inspection systems, implicit simplex, discrete inspection ASIF) never violates any of the filter's safety constraints beyond the loss a sampled control can cause within one step, whatever the desired controls do, as long as the filter reports no solver failure. In particular the docking speed limit, velocity limits, collision, keep-out-cone, maximum-distance and passive-safety margins stay non-negative.",
  ['inputs', 'histories'], "every safe initial state and every desired-control sequence, including adversarial state-feedback ones",
  NOASSERT+"one initial state and one benign controller per filter, safety not asserted.",
  [I1, D2, D3, V1, N3, ASIF, SIM], [('all filters together', ASIF), ('constraint definitions', V1)],
  ["trajectories of an independent simulator driven by the filtered control"])
p('P19', 'Safety constraints mean what they document',
  "For every state and parameter value, the library and zoo constraints (state limits, docking speed limit, chief and deputy collision, keep-out cone, maximum distance, passive safety, polynomial strengthening) evaluate to their documented formula plus bias, their reported phi is the documented safe-set margin without bias, and their gradient is the derivative of that formula. Passive safety is evaluated on the true unforced future relative positions over the whole horizon.",
  ['inputs', 'configurations'], "every state (inside, outside and on either side of each branch) and parameter value",
  NOASSERT+"constraint values are never compared with anything.",
  [CON, D2, D3, V1, N3], [('constraint formulas', V1), ('gradient', CON)], ["constraint call, phi, grad"])
p('P20', 'Zoo filters use the configured physics and limits',
  "The relative-motion matrices are the Clohessy-Wiltshire equations for the given mass and mean motion, the discrete and predicted next states equal their exact solution under constant control, and the backup controllers are the documented braking and velocity-regulating laws of the same plant. Every documented constructor parameter of a zoo filter (mass, mean motion, speed-limit coefficients, velocity limits, radii, maximum distance, field of view, sun speed, windows, bounds) changes the filter's constraints, dynamics and decisions accordingly, and defaults are the documented ones.",
  ['configurations', 'inputs'], "every parameter combination and state",
  "The scripts run the defaults only; a parameter that is ignored or swapped goes unnoticed.",
  [CU, I1, D2, D3, V1, N3], [('matrix generation', CU), ('parameter plumbing', V1)])
p('P21', 'Higher-order barrier constraints follow the recursion',
  "For any relative degree r >= 1 a higher-order constraint evaluates to psi_(r-1), where psi_0 is the original constraint (bias included) and psi_i = grad(psi_(i-1)) f + alpha(psi_(i-1)), uses the original constraint's parameters and phi, and its gradient is that of psi_(r-1). A filter built on it enforces grad(psi)(f+g u)+alpha(psi) >= 0.",
  ['inputs', 'configurations'], "every state, system, relative degree, strengthening function, bias and parameter value",
  "The one example is never enabled by a test.",
  [CON, V1], [('recursive helper constraints', CON)])
p('P22', 'The delta-v filter latches before the budget is exceeded and stays latched',
  "The delta-v limit filter returns the desired control while the simulated use of that control for one step followed by its backup controller over the prediction horizon stays within the delta-v limit. On the first call where it does not, it returns the backup control for the current state, reports intervening, and from then on returns bounded backup control, with its integral error accumulated once per call, until reset.",
  ['histories', 'inputs', 'configurations'], "every history of states, desired controls, limits, horizons and resets",
  "The script using this filter cannot run here and checks nothing.",
  [V1], [('prediction loop and latch', V1)])
p('P23', 'Sample tests record the true verdict for every sampled initial state',
  "A sample test writes one CSV file with exactly the requested number of rows, each holding a safe sampled initial state (every constraint value and every phi non-negative) and True exactly when the simulated closed loop from it kept every phi non-negative until the episode ended, False when some phi was negative at any step or the RTA raised SolverError. Initially unsafe samples are replaced and never recorded, the output directory is created, and episodes run until the done condition.",
  ['inputs', 'histories', 'fault_sequences'], "every sampler, RTA, dynamics and pattern of safe, violating and solver-failing episodes",
  "The sample-test script failed on the original tree.",
  [ST, RS], [('episode simulation', ST), ('CSV writer', ST)], ["CSV output"])
p('P24', 'Tracked episodes and sampled initial states are faithful',
  "A tracked episode returns the states, controls and intervening flags in step order, aligned, starting with a safe initial state (when checking is on), where every state is the simulator's successor of the previous one under the recorded control, which is the RTA's output for the desired control at that state; it stops at the first step whose done condition holds. Latin-hypercube samples lie inside the bounds and stratify every dimension, and parametric samples follow the configured distribution and parameters of every component.",
  ['inputs', 'histories', 'configurations'], "every RTA, controller, done condition, dimension and distribution table",
  "Scripts only plot the result of a few fixed episodes.",
  [ST], [('episode loop', ST), ('samplers', ST)], ["returned arrays and samples"])
p('P25', 'Named state accessors read and write the right component',
  "For every zoo state class, reading a named component returns the documented element of the state vector, writing it changes that element and no other, and building a state from a vector never shares storage with the caller's vector.",
  ['inputs', 'configurations'], "every state class, component and vector",
  "No test uses the accessors; every setter raised an error on the original tree.",
  [SW, I1, D2, D3, V1], [('named properties', SW)], ["accessors and vector"])
def main():
    out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
if __name__ == '__main__':
    main()

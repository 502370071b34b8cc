"""Writes known_findings.json"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("P12", "inspection-short-state-sun-speed", "Inspection1v1RTA / InspectionRTA: one call with a state lacking the sun angle sets sun_vel=0 for good (in _get_state), so later calls with full states give different controls than a fresh module, even after reset"),
 ("P22", "care-default-construction", "SwitchingDeltaVLimitRTA() / InspectionCascadedRTA() with their default mass and mean motion: scipy.linalg.solve_continuous_are rejects the Riccati equation (LinAlgError) and construction fails"),
 ("P23", "sample-test-no-reset", "sample-test episodes (SafetyAssuranceSampleTestingModule.run_sample_test) do not reset the RTA in between, so with a latching simplex the verdict recorded for an episode depends on the episodes simulated before it"),
]
X = """3036c76 P23 pass constraint params when sample testing evaluates constraints
8d27510 P12 reset the simplex latch timer at the beginning of an episode
d9b2dc0 P12 CascadedRTA.reset resets the RTA modules it cascades
9380e65 P07 do not jit implicit ASIF integration by default
80d4a6f P09 size implicit ASIF subsampling for slack variables
cf1f83d P07 implicit ASIF subsampling dropped the point after num_check_all
7420f3d P14 name implicit ASIF barrier constraints after subsampling
9c98f87 P08 support element specific control bounds in discrete ASIF
08704ce P08 integrate DiscreteASIFIntegratorModule with a differentiable ODE solver
25d055c P20 discrete inspection RTA rotated the sun the wrong way
889a194 P22 delta v limit RTA applied the desired control on the step it latched
9a8f910 P22 SwitchingDeltaVLimitRTA.reset releases the latch and clears the error integral
b72c3a4 P21 HOCBFConstraint with relative_degree 1 raised UnboundLocalError
7453c9f P19 ConstraintPSMDeputy.get_array mapped the wrong number of arguments
86cbec4 P17 CombinedInspectionRTA reports intervening when a deputy RTA intervenes
8e0a88e P17 build the default deputy RTA for the configured number of deputies
776ee4f P17 CombinedInspectionRTA.reset resets the deputy RTA
408c45a P02 a disabled RTA module is not intervening
48ca35a P05 start every simplex latch from zero elapsed time
efbf157 P25 RTA state setters update immutable jax arrays
32f59aa P04 cover the whole backup window despite float rounding
53cf952 P22 a latched delta v limit RTA reports intervening after being disabled and enabled
68d0e24 P13 implicit ASIF constraint names follow the step size when the constraint matrices are jit compiled
26f65ed P07 implicit ASIF subsampling repeated the last point when num_check_all exceeds the trajectory length""".splitlines()
fx = []
for l in X:
    c, p, w = l.split(' ', 2)
    fx.append(f'fixed: property={p} {c} {w}')
json.dump({'findings': [dict(property=a, key=b, what=c) for a, b, c in F], 'fixed': fx}, open(os.path.join(V, 'known_findings.json'), 'w'), indent=1)

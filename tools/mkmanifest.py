"""Writes MANIFEST.json from the checks present in vp/checks and known_findings.json's fixed list."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
REFMODEL = 'online monitor: every call of the real module is judged against an independent float64 reference model'
TECH = {
    'P01': 'online invariant monitor on every returned control under hostile workloads',
    'P02': 'aliasing/mutation sanitizer (snapshot, poison and re-compare of every array crossing the API)',
    'P03': REFMODEL + ' (one-step switching monitor)',
    'P04': REFMODEL + ' (backup-trajectory switching monitor)',
    'P05': 'online trace-specification checker of the latch automaton with spied monitor consultations',
    'P06': REFMODEL + ' (KKT/projection oracle for the quadratic program)',
    'P07': REFMODEL + ' (trajectory, sensitivity and KKT oracle)',
    'P08': REFMODEL + ' (feasibility and optimality oracle for the discrete barrier)',
    'P09': REFMODEL + ' (lexicographic slack oracle)',
    'P10': 'online monitor of warnings/exceptions against an independent feasibility oracle, with injected solver faults',
    'P11': 'runtime reconfiguration monitor: same module after each change vs reference model and fresh twin',
    'P12': 'trace-equivalence monitor: reset module vs freshly built twin driven by the same event log',
    'P13': 'differential monitor: twins under different compilation settings driven by the same event log',
    'P14': 'online monitor of the reported information against the observed controls and the reference rows',
    'P15': 'online monitor of the controller-state transitions recorded by instrumented controllers',
    'P16': 'trace-composition monitor: cascade vs manual composition of twins, with spy members recording calls',
    'P17': 'trace-composition monitor: combined module vs per-deputy modules, with spy deputies recording calls',
    'P18': 'closed-loop safety monitor under adversarial controllers (reachability stress)',
    'P19': REFMODEL + ' (constraint values, gradients and phi)',
    'P20': REFMODEL + ' (dynamics, controllers and configuration plumbing)',
    'P21': REFMODEL + ' (autodiff recursion of the higher-order barrier)',
    'P22': 'online trace-specification checker of the delta-v latch against a reference simulation',
    'P23': 'offline checker over the recorded CSV logs and spied episode traces',
    'P24': 'offline checker over recorded episode traces and sampler draws',
    'P25': 'online monitor of accessor round trips against plain-array semantics',
}
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(V, 'vp', 'checks', i.lower() + '.py')):
        checks.append({'property': i, 'quick_cmd': f'bash run.sh {i} quick', 'thorough_cmd': f'bash run.sh {i} thorough',
                       'evidence_file': f'evidence/{i}.json', 'technique': TECH[i], 'level': 'exploration',
                       'level_note': 'Runs the real code from /repo under generated workloads (seeded by VERIF_SEED) with monitors judging every observed event; '
                                     'holds on the executions observed, not proved for all. Trusts numpy/scipy/jax arithmetic and the reference model in vp/ref.py; '
                                     'the run fails (exit 2) when the monitors observed less than the required number of events of each kind.'})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'true',
     'hooks': {'guard': 'none', 'enable': 'no hooks are added to /repo; monitors attach from /verif through the public interface', 'source_commits': []},
     'checks': checks, 'not_applicable': na,
     'notes': 'Known findings and repaired defects: known_findings.json. Design: DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')

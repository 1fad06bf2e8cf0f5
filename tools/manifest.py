#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of claimed properties."""
import json, os
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLAIMED = "C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C25 C26".split()
PURE = 'pure function of its inputs: no concurrency, time, I/O, randomness or multi-party behaviour that a schedule or a fault could influence; outside the family of deterministic simulation'
REASONS = {'C23': PURE, 'C24': PURE}
props = [json.loads(l) for l in open(os.path.join(VERIF, 'properties.jsonl'))]
NOTE = ('Seeded search over simulated runs of the real controller manager, resource manager and control loop under a scheduler that decides every interleaving, '
        'clock step and fault; no violation among the runs explored. rclcpp, pluginlib and realtime_tools are simulated; controllers and hardware are scripted doubles; '
        'interleavings are sequentially consistent.')
m = {'version': 1, 'setup_cmd': 'python3 tools/build.py', 'checks': [], 'not_applicable': [],
     'hooks': {'guard': 'none', 'enable': 'no hooks in /repo: the seams are the stub headers and -fsanitize=thread instrumentation points supplied by /verif/sim', 'source_commits': []},
     'notes': 'check.py <property> [--tier quick|thorough] [--replay FILE]; see DESIGN.md'}
for p in props:
    i = p['id']
    if i in CLAIMED:
        m['checks'].append({'property': i, 'quick_cmd': f'python3 check.py {i} --tier quick', 'thorough_cmd': f'python3 check.py {i} --tier thorough',
                            'evidence_file': f'evidence/{i}.json', 'technique': 'deterministic simulation with fault injection (seeded search over schedules and faults)',
                            'level': 'exploration', 'level_note': NOTE})
    else:
        m['not_applicable'].append({'property': i, 'reason': REASONS.get(i, 'not claimed yet: its check is being built')})
json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
print(len(m['checks']), 'checks')

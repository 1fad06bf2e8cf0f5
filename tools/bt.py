#!/usr/bin/env python3
"""bt.py SIM COUNT PROFILES [FROM] : signatures of each profile's own property (all with 'all' as 5th argument)"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import search
sim, n, profs = sys.argv[1], int(sys.argv[2]), sys.argv[3].split(',')
frm = int(sys.argv[4]) if len(sys.argv) > 4 else 1
for p in profs:
    t = search.search(sim, p, frm, n, 3600)
    print('==', p, f'wall {t.wall:.1f} runs', t.n['runs'], 'incomplete', t.n['incomplete'], t.n['killed'], sorted(t.incomplete_seeds)[:5], flush=True)
    for v in sorted(t.viol.values(), key=lambda v: v['sig']):
        if v['sig'].startswith(p + '/') or len(sys.argv) > 5:
            print(f"{v['count']:6d} {v['sig']} [{p} {v['seed']}] {v['msg'][:170]}", flush=True)

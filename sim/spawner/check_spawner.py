"""Search of C22 and C25: batches of simulated runs in several processes, confirmation, minimisation, evidence."""
import json, os, re, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
SIM = os.path.join(HERE, 'spawner_sim.py')
PROP = 'C22'
PROCESSES = {'C22': 'spawner and unspawner processes', 'C25': 'hardware spawner and ros2controlcli processes'}
REAL = {'C22': 'spawner.py, unspawner.py, controller_manager_services.py, __init__.py and the service definitions of /repo',
        'C25': 'hardware_spawner.py, controller_manager_services.py, the verbs of ros2controlcli that change something, and the service definitions of /repo'}


def sim(args, timeout=300):
    r = subprocess.run([sys.executable, SIM] + [str(a) for a in args], capture_output=True, text=True, timeout=timeout, env={**os.environ, 'SPAWNER_PROP': PROP})
    return r.returncode, r.stdout, r.stderr


def batch(start, count):
    rc, out, err = sim(['batch', start, count], 600)
    if rc:
        raise RuntimeError('spawner simulation failed: ' + err[-500:])
    return json.loads(out)


def main(tier, vseed, known, is_known, say, fail, t0, prop='C22'):
    global PROP
    PROP = prop
    count = 24000 if tier == 'quick' else 1500000
    wall = 240 if tier == 'quick' else 7200
    start = 1 + (vseed - 1) * 100000000
    a = batch(start, 80)['digests']
    b = batch(start, 27)['digests'] + batch(start + 27, 53)['digests']
    deterministic = a == b
    t1 = time.time()
    tot = {'runs': 0, 'gaps': {}, 'viol': {}, 'faults': {}, 'probes': {}, 'sim_s': 0.0, 'steps': 0, 'switches': 0, 'calls': 0}
    digests, size, nxt = set(), 500, start
    with ThreadPoolExecutor(8) as ex:
        pending = []
        while nxt < start + count or pending:
            while len(pending) < 16 and nxt < start + count and time.time() - t1 < wall:
                pending.append(ex.submit(batch, nxt, min(size, start + count - nxt)))
                nxt += size
            if not pending:
                break
            d = pending.pop(0).result()
            for n in ('runs', 'sim_s', 'steps', 'switches', 'calls'):
                tot[n] += d[n]
            for n in ('gaps', 'faults', 'probes'):
                for k, v in d[n].items():
                    tot[n][k] = tot[n].get(k, 0) + v
            for sig, v in d['viol'].items():
                o = tot['viol'].setdefault(sig, v)
                if o is not v:
                    o['count'] += v['count']
            digests.update(d['digests'])
            if any(not is_known(known, prop, v['sig'], v['msg']) for v in tot['viol'].values()):
                nxt = start + count
    took = time.time() - t1
    shown, reported, unconfirmed = {}, [], []
    for v in sorted(tot['viol'].values(), key=lambda v: (-v['count'], v['sig'])):
        k = is_known(known, prop, v['sig'], v['msg'])
        if k:
            shown[k['text']] = shown.get(k['text'], 0) + v['count']
            continue
        if len(reported) >= 2:
            continue
        ok = sum(f"VIOL {v['sig']} " in sim(['run', v['seed']])[1] for _ in range(2)) == 2
        d = os.path.join(VERIF, 'build', 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]+', '_', v['sig'])[:80]}-{v['seed']}.replay")
        if ok:
            ok = sim(['minimise', v['seed'], v['sig'], path], 200)[0] == 0
        if ok:
            h = [re.findall(r'^HASH (\S+)', sim(['replay', path])[1], re.M) for _ in range(2)]
            ok = h[0] == h[1] and f"VIOL {v['sig']} " in sim(['replay', path])[1]
        (reported if ok else unconfirmed).append((v, path))
    rate = int(tot['runs'] / took * 3600) if took else 0
    gaps = sum(tot['gaps'].values())
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'wall_s': round(time.time() - t0, 1),
        'coverage': {
            'evaluations': tot['runs'], 'distinct_nontrivial': len(digests),
            'rule': 'one evaluation = one simulated run of up to three ' + PROCESSES[prop] + ' (the real Python code) against a reference model of the services of the '
                    'controller manager, generated from one seed (arguments, schedule, signals, faults); every run starts at least one process. Counted as distinct: runs with a '
                    'different history (hash over every call, answer, signal, lock operation and their order).',
            'samples': [sim(['plan', start])[1][:3000]],
            'seeds': {'from': start, 'count': tot['runs']}, 'runs_per_hour': rate, 'search_wall_s': round(took, 1), 'simulated_seconds': round(tot['sim_s'], 1),
            'faults_injected': tot['faults'], 'situations_reached': tot['probes'], 'incomplete_runs': gaps, 'gaps': tot['gaps'],
            'run_statistics': {'scheduling_steps': tot['steps'], 'process_switches': tot['switches'], 'service_calls': tot['calls']},
            'deterministic_probe': {'seeds': 80, 'identical': deterministic},
            'components': {'real': REAL[prop],
                           'stub': 'rclpy (node, clients, spinning, logging), the argument completion of ros2cli, filelock, signals, clock and sleeping are simulated; the controller manager is a reference model of its services'},
            'known_findings_seen': shown},
        'assumptions': ['the services of one controller manager handle requests one after the other, those of one client in order', 'signals arrive between two operations that can wait, log or call'],
        'violations': len(reported),
        'reported': [{'signature': v['sig'], 'message': v['msg'], 'seed': v['seed'], 'replay': p} for v, p in reported]}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    say(f"{tot['runs']} runs in {took:.1f} s ({rate} per hour), {tot['sim_s']:.0f} simulated seconds, {len(digests)} distinct histories, "
        f"{sum(tot['faults'].values())} faults fired, deterministic={deterministic}, incomplete={gaps}")
    for t in shown:
        say(f'KNOWN-FINDING: property={prop} {t}')
    for v, p in reported:
        say(f"{v['sig']} in {v['count']} runs, first seed {v['seed']}: {v['msg']}")
        say(f'VIOLATION property={prop} replay={p}')
    if reported:
        sys.exit(1)
    if unconfirmed:
        fail('violations that did not reproduce: ' + ', '.join(f"{v['sig']} (seed {v['seed']})" for v, p in unconfirmed))
    if not deterministic:
        fail('the simulation was not deterministic')
    if gaps > tot['runs'] // 100:
        fail(f"{gaps} of {tot['runs']} runs did not finish: {tot['gaps']}")
    if tot['runs'] < 100:
        fail('too few runs')
    say('held on everything explored')
    sys.exit(0)


def replay(path, say):
    global PROP
    m = json.load(open(path))['violation']
    PROP = m.split('/')[0]
    rc, out, err = sim(['replay', path])
    say(out)
    ok = f'VIOL {m} ' in out
    say('reproduced' if ok else 'NOT reproduced', m)
    sys.exit(1 if ok else 0)

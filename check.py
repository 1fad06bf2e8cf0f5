#!/usr/bin/env python3
"""Decides one property by seeded simulation: check.py <property> [--tier quick|thorough]
exit 0: held on everything explored; exit 1 + 'VIOLATION property=<id> replay=<path>': broken; 2: no answer."""
import json, os, re, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import build as builder
import search

T0 = time.time()
# number of seeds of the quick and the thorough tier
QUICK = 20000
THOROUGH = 400000
SPECIAL = {'C15': {'quick': 60000, 'thorough': 3000000}, 'C21': {'quick': 24000, 'thorough': 2000000}}
RULES = {
    'C15': 'one evaluation = one simulated run of several threads accessing shared real interface handles, generated from one seed (handles, types, accesses, schedule), '
           'its history checked against atomic registers by a search for a linearization. Counted as distinct: runs with a different executed interleaving.',
    'C21': 'one evaluation = one simulated run of the real mock system below the real resource manager, generated from one seed (interfaces, options, commands, mode switches, '
           'state changes, periods, schedule), compared with a reference model after every read, mode switch and transition. Counted as distinct: runs with a different executed interleaving.'}
REAL = {'C15': 'StateInterface, CommandInterface, Handle, LoanedStateInterface, LoanedCommandInterface of /repo, instrumented for scheduling',
        'C21': 'mock_components/GenericSystem, resource manager, hardware component state machine, description parser, interface handles of /repo'}
STUB = {'C15': 'threads, mutexes and clock are simulated; the accessing threads are generated',
        'C21': 'rclcpp, pluginlib, urdf loading and the asynchronous function handler are stubs; the control loop and the service thread are generated'}


def say(*a):
    print(*a, flush=True)


def load_known():
    known, path = [], os.path.join(VERIF, 'known-findings.txt')
    for line in open(path) if os.path.exists(path) else []:
        line = line.rstrip('\n')
        if not line.strip() or line.startswith('#') or line.startswith('fixed:'):
            continue
        m = re.match(r'finding: property=(\S+) sig=(\S+)(?: msg=/(.*?)/)? plan=(\S+) :: (.*)$', line)
        if not m:
            raise RuntimeError('known-findings.txt: cannot parse: ' + line)
        known.append({'property': m[1], 'sig': m[2], 'msg': m[3], 'plan': m[4], 'text': m[5]})
    return known


def is_known(known, prop, sig, msg):
    for k in known:
        if k['property'] == prop and re.fullmatch(k['sig'], sig) and (not k['msg'] or re.search(k['msg'], msg)):
            return k
    return None


def call(args, timeout):
    r = subprocess.run(args, capture_output=True, text=True, timeout=timeout)
    return r.returncode, r.stdout, r.stderr


def fail(msg):
    say('NO ANSWER:', msg)
    sys.exit(2)


def confirm(sim, prop, v, seed, budget):
    """Gate: the violation must reproduce from its seed (twice) and from the minimised replay file in fresh processes."""
    sig = v['sig']
    ok = 0
    for _ in range(2):
        rc, out, _e = call([sim, 'run', '--profile', prop, '--seed', str(seed), '--sig', sig], 120)
        ok += rc == 1
    if ok != 2:
        return None
    d = os.path.join(VERIF, 'build', 'replays')
    os.makedirs(d, exist_ok=True)
    safe = re.sub(r'[^A-Za-z0-9_.-]+', '_', sig)[:80]
    path = os.path.join(d, f'{prop}-{safe}-{seed}.replay')
    rc, out, err = call([sim, 'minimize', '--profile', prop, '--seed', str(seed), '--sig', sig, '--wall', str(int(budget)), '--out', path], budget + 200)
    if rc:
        return None
    for _ in range(2):
        rc, out, _e = call([sim, 'replay', path, '--sig', sig], 120)
        if rc != 1:
            return None
    return path


def replay_file(sim, prop, path):
    text = open(path).read()
    m = re.search(r'^# violation (\S.*)$', text, re.M)
    sig = m[1] if m else ''
    rc, out, err = call([sim, 'replay', path, '--log', '--sig', sig], 120)
    print(out)
    say('reproduced' if rc == 1 else 'NOT reproduced', sig)
    sys.exit(rc if rc in (0, 1) else 2)


def main():
    prop = sys.argv[1]
    a = sys.argv[2:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    try:
        vseed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        vseed = 1
    say(f'property={prop} tier={tier} VERIF_SEED={vseed}')
    if prop in ('C22', 'C25'):   # Python code: a simulator of its own
        sys.path.insert(0, os.path.join(VERIF, 'sim', 'spawner'))
        import check_spawner
        if '--replay' in a:
            check_spawner.replay(a[a.index('--replay') + 1], say)
        check_spawner.main(tier, vseed, load_known(), is_known, say, fail, T0, prop)
    try:
        sim = builder.build('/repo')
    except (RuntimeError, OSError, subprocess.CalledProcessError) as e:
        fail(f'build failed: {e}')
    say(f'simulator {os.path.basename(sim)} built in {time.time() - T0:.0f} s')
    if '--replay' in a:
        replay_file(sim, prop, a[a.index('--replay') + 1])
    known = load_known()
    start = 1 + (vseed - 1) * 100000000
    conf = SPECIAL.get(prop, {})
    count = conf.get(tier, QUICK if tier == 'quick' else THOROUGH)
    wall = 240 if tier == 'quick' else 9000
    # determinism probe: the same seeds, split differently, must give identical histories
    h1 = search.search(sim, prop, start, 80, 120, slice_size=10)
    h2 = search.search(sim, prop, start, 80, 120, workers=4, slice_size=27)
    deterministic = h1.hash == h2.hash and h1.n['runs'] == h2.n['runs'] == 80

    def news(t):
        return [v for v in t.viol.values() if v['sig'].startswith(prop + '/') and not is_known(known, prop, v['sig'], v['msg'])]
    tot = search.search(sim, prop, start, count, wall, stop=lambda t: bool(news(t)), dumps=True)
    own = sorted((v for v in tot.viol.values() if v['sig'].startswith(prop + '/')), key=lambda v: (-v['count'], v['sig']))
    shown = {}
    reported = []
    unconfirmed = []
    for v in own:
        k = is_known(known, prop, v['sig'], v['msg'])
        if k:
            shown[k['text']] = shown.get(k['text'], 0) + v['count']
    # the recorded plan of each known finding is replayed too
    for k in known:
        if k['property'] != prop or k['plan'] == '-':
            continue
        p = os.path.join(VERIF, 'known', k['plan'])
        rc, out, _e = call([sim, 'replay', p], 120)
        for line in out.splitlines():
            m = re.match(r'VIOL (\S+) \[.*?\] (.*)$', line)
            if m and is_known([k], prop, m[1], m[2]):
                shown[k['text']] = shown.get(k['text'], 0) + 1
                break
    for v in [v for v in own if not is_known(known, prop, v['sig'], v['msg'])][:4]:
        left = 780 - (time.time() - T0)
        path = confirm(sim, prop, v, v['seed'], max(10, min(40 if tier == 'quick' else 120, left / 3)))
        if path:
            reported.append((v, path))
            if len(reported) >= 2 or time.time() - T0 > 500:
                break
        else:
            unconfirmed.append(v)
    s = tot.maps['stats']
    sim_s = s.get('sim_ns', 0) / 1e9
    runs = tot.n['runs']
    ok_runs = runs - tot.n['incomplete']
    per_hour = int(runs / tot.wall * 3600) if tot.wall > 0 else 0
    # written-out sample case
    rc, sample, _e = call([sim, 'plan', '--profile', prop, '--seed', str(start)], 60)
    ev = {
        'property': prop, 'tier': tier, 'seed': vseed, 'level': 'exploration', 'wall_s': round(time.time() - T0, 1),
        'coverage': {
            'evaluations': runs,
            'distinct_nontrivial': len(tot.scheds),
            'rule': RULES.get(prop) or 'one evaluation = one simulated run of the real controller manager, resource manager and control loop generated from one seed '
                    '(robot, controllers, operations, faults, schedule); every run performs at least one operation. Counted as distinct: runs with a different '
                    'executed interleaving (hash over the sequence of thread switches, time advances and operation results).',
            'samples': [sample[:3000]],
            'seeds': {'from': start, 'count': count},
            'runs_per_hour': per_hour, 'search_wall_s': round(tot.wall, 1),
            'simulated_seconds': sim_s,
            'abstract_states_reached': len(tot.states),
            'faults_injected': tot.maps['faults'],
            'operations': tot.maps['ops'],
            'situations_reached': tot.maps['probes'],
            'run_statistics': s,
            'deterministic_probe': {'seeds': 80, 'split': ['8x10', '4x27'], 'identical': deterministic},
            'incomplete_runs': tot.n['incomplete'],
            'components': {
                'real': REAL.get(prop) or 'controller_manager, controller_interface, hardware_interface (resource manager, components, handles, parser, mock component), joint_limits, ros2_control_node main loop, sleeping policies: compiled from /repo, instrumented for scheduling',
                'stub': STUB.get(prop) or 'rclcpp (nodes, services, executor, clock, parameters), pluginlib, realtime_tools, diagnostics, statistics: simulated in /verif/sim/stubs; controllers and hardware plugins are scripted test doubles'},
            'known_findings_seen': shown,
        },
        'assumptions': ['interleavings are explored under sequential consistency; preemption at every instrumented memory access and synchronisation operation', 'service calls reach the manager in order; message loss is not part of the ROS service contract'],
        'violations': len(reported),
        'reported': [{'signature': v['sig'], 'message': v['msg'], 'seed': v['seed'], 'replay': path} for v, path in reported],
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1, sort_keys=True)
    say(f"{runs} runs in {tot.wall:.1f} s ({per_hour} per hour), {sim_s:.0f} simulated seconds, {len(tot.states)} abstract states, "
        f"{sum(tot.maps['faults'].values())} faults fired, deterministic={deterministic}, incomplete={tot.n['incomplete']}")
    for t in shown:
        say(f'KNOWN-FINDING: property={prop} {t}')
    for v, path in reported:
        say(f"{v['sig']} in {v['count']} runs, first seed {v['seed']}: {v['msg']}")
        say(f'VIOLATION property={prop} replay={path}')
    if reported:
        sys.exit(1)
    if unconfirmed:
        fail('violations that did not reproduce: ' + ', '.join(f"{v['sig']} (seed {v['seed']})" for v in unconfirmed))
    if not deterministic:
        fail('the simulation was not deterministic')
    if tot.n['incomplete'] > max(3, runs // 100):
        fail(f"{tot.n['incomplete']} of {runs} runs did not finish")
    if ok_runs < 100:
        fail('too few runs')
    say('held on everything explored')
    sys.exit(0)


if __name__ == '__main__':
    try:
        main()
    except (RuntimeError, OSError, subprocess.TimeoutExpired, json.JSONDecodeError) as e:
        fail(str(e))

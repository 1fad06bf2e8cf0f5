#!/usr/bin/env python3
"""C22, C25: deterministic simulation of the spawner, the unspawner, the hardware spawner and the command line verbs.

The real spawner.py, unspawner.py, hardware_spawner.py, controller_manager_services.py and ros2controlcli of /repo run (several at once, each with module
state of its own) on simulated rclpy, file locks, signals and clock, against a reference model of the controller
manager's services.  One seed is one exactly repeatable execution.

  spawner_sim.py plan SEED | run SEED | replay FILE | batch FROM COUNT
"""
import builtins, hashlib, json, os, random, subprocess, sys, tempfile, threading, time, types

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get('SPAWNER_REPO', '/repo')
PKG = REPO + '/controller_manager/controller_manager'
SCRATCH = None


def scratch():
    """directory with the parameter files and the locks of the simulated processes"""
    global SCRATCH
    if SCRATCH is None:
        SCRATCH = tempfile.mkdtemp(prefix='spawner_sim.')
        for c in NAMES:
            with open(f'{SCRATCH}/{c}.yaml', 'w') as f:
                f.write(f'{c}:\n  ros__parameters:\n    type: sim/{c}\n    gain: 1.5\n')
            with open(f'{SCRATCH}/{c}_fallback.yaml', 'w') as f:
                f.write(f'/**/{c}:\n  ros__parameters:\n    type: sim/{c}\n    fallback_controllers: [other_{c}]\n')
        with open(f'{SCRATCH}/empty.yaml', 'w') as f:
            f.write('/somebody_else:\n  ros__parameters:\n    x: 1\n')
    return SCRATCH


NAMES = ['c1', 'c2', 'c3', 'c4']
HARDWARE = ['h1', 'h2', 'h3']
PROP = os.environ.get('SPAWNER_PROP', 'C22')


class Gap(BaseException):
    """the simulation lacks something that the code uses: no verdict"""


class Killed(BaseException):
    """the simulated process is gone (SIGKILL, end of the run)"""


# ------------------------------------------------------------------------------------------------ kernel
class Actor:
    def __init__(self, k, idx, spec):
        self.k, self.idx, self.spec = k, idx, spec
        self.name = f's{idx}'
        self.sem = threading.Semaphore(0)
        self.wake, self.cond = 0.0, None
        self.started = self.done = self.killed = self.waiting_lock = False
        self.handlers, self.pending, self.signalled = {}, [], None
        self.yields = 0
        self.rc, self.exc = None, None
        self.t_start = self.t_exit = None
        self.lock_held = None
        self.slept_with_lock = 0.0
        self.calls = 0
        self.mut_after_signal = []
        self.argv = spec['argv']
        self.late_wait = 0.0

    def point(self, until=None, cond=None):
        """scheduling point: returns when cond() holds (True) or the time `until` is reached (False)"""
        k = self.k
        if self.killed:
            raise Killed()
        while True:
            self.yields += 1
            self.cond, self.wake = cond, until
            k.back.release()
            self.sem.acquire()
            if self.killed:
                raise Killed()
            handled = bool(self.pending)
            while self.pending:
                s = self.pending.pop(0)
                h = self.handlers.get(s)
                k.fault(f'signal:{"INT" if s == 2 else "TERM"}')
                if h == 'ignore':
                    continue
                k.log(f'{self.name} signal {s}')
                if self.signalled is None:
                    self.signalled = k.now
                if h is None or h == 'default':
                    self.killed = True
                    raise Killed()
                h(s, None)
            # a signal that was ignored or handled does not end the wait
            if handled and not (cond is None and until is None) and not (cond and cond()) and not (until is not None and until <= k.now + 1e-9):
                continue
            break
        return cond() if cond else True


class Kernel:
    def __init__(self, plan, verbose=False):
        self.plan = plan
        self.rng = random.Random(plan['sched_seed'])
        self.now = 0.0
        self.back = threading.Semaphore(0)
        self.actors, self.events, self.seq = [], [], 0
        self.history, self.verbose = [], verbose
        self.viol, self.faults, self.probes = [], {}, {}
        self.digest = hashlib.sha1()
        self.locks = {}          # path -> actor
        self.switches = 0
        self.gap = None
        self.mgr = Manager(self)

    def log(self, s):
        line = f'[{self.now:10.4f}] {s}'.replace(scratch(), '@SCRATCH@')
        self.history.append(line)
        self.digest.update(line.encode())

    def fault(self, n):
        self.faults[n] = self.faults.get(n, 0) + 1

    def probe(self, n):
        self.probes[n] = self.probes.get(n, 0) + 1

    def violate(self, sig, msg):
        sig = self.plan.get('prop', 'C22') + '/' + sig
        self.log(f'!! {sig}: {msg}')
        if not any(v['sig'] == sig for v in self.viol):
            self.viol.append({'sig': sig, 'msg': msg, 't': round(self.now, 4)})

    def at(self, t, fn):
        self.seq += 1
        self.events.append((t, self.seq, fn))

    def run(self):
        for i, s in enumerate(self.plan['procs']):
            a = Actor(self, i, s)
            self.actors.append(a)
            self.at(s['start'], lambda a=a: self.start(a))
            for g in s.get('signals', []):
                if 'at' in g:
                    self.at(g['at'], lambda a=a, g=g: self.send_signal(a, g['sig']))
            if 'kill' in s:
                self.at(s['kill'], lambda a=a: self.kill(a))
        for m in self.plan['manager']:
            self.at(m['at'], lambda m=m: self.mgr.external(m))
        steps = 0
        last = None
        while True:
            ready = []
            for a in self.actors:
                if a.started and not a.done and (a.pending or a.killed or (a.cond is None and a.wake is None) or (a.cond is not None and a.cond()) or (a.wake is not None and a.wake <= self.now + 1e-9)):
                    ready.append(a)
            due = [e for e in self.events if e[0] <= self.now + 1e-9]
            if due and (not ready or self.rng.random() < 0.7):
                e = min(due, key=lambda x: (x[0], x[1]))
                self.events.remove(e)
                e[2]()
                continue
            if ready:
                a = ready[self.rng.randrange(len(ready))] if len(ready) > 1 else ready[0]
                if a is not last:
                    self.switches += 1
                    self.digest.update(a.name.encode())
                last = a
                for g in a.spec.get('signals', []):
                    if 'point' in g and g['point'] == a.yields and not g.get('sent'):
                        g['sent'] = True
                        self.send_signal(a, g['sig'])
                self.now += 1e-5
                a.sem.release()
                self.back.acquire()
                steps += 1
                if self.gap is not None or steps > 20000:
                    break
                continue
            times = [e[0] for e in self.events] + [a.wake for a in self.actors if a.started and not a.done and a.wake is not None]
            if not times:
                break
            t = min(times)
            if t > self.plan['horizon']:
                self.now = self.plan['horizon']
                break
            self.now = max(self.now, t)
        self.steps = steps
        for a in self.actors:
            a.alive_at_end = a.started and not a.done
        try:
            if self.gap is None and steps <= 20000:
                Oracle(self).final()
        finally:
            for a in self.actors:
                if a.started and not a.done:
                    a.killed = True
                    a.sem.release()
                    self.back.acquire()
        for g in [g for s in self.plan['procs'] for g in s.get('signals', [])]:
            g.pop('sent', None)

    def send_signal(self, a, s):
        if a.started and not a.done:
            a.pending.append(s)

    def kill(self, a):
        if a.started and not a.done:
            self.log(f'{a.name} killed')
            self.fault('process-killed')
            a.was_killed = True
            a.killed = True

    def start(self, a):
        a.started = True
        a.t_start = self.now
        self.log(f'{a.name} starts: {a.spec["prog"]} {" ".join(a.argv)}')
        threading.Thread(target=self.body, args=(a,), daemon=True).start()

    def body(self, a):
        a.sem.acquire()
        try:
            if not a.killed:
                env = a.env = Env(self, a)
                a.rc = env.main()
        except Killed:
            pass
        except Gap as e:
            self.gap = str(e)
        except SystemExit as e:
            a.rc = e.code
        except BaseException as e:
            a.exc = e
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            a.where = tb[-1].name if tb else ''
        a.done = True
        a.t_exit = self.now
        if self.gap is None:
            try:
                if not a.killed:
                    Oracle(self).exited(a)
                self.log(f'{a.name} ends: ' + ('killed' if a.killed else f'{type(a.exc).__name__}: {a.exc}' if a.exc else f'exit code {a.rc}'))
            except Exception as e:   # defect of this harness
                self.gap = f'oracle: {e!r}'
        for p in [p for p, h in self.locks.items() if h is a]:
            del self.locks[p]
        self.back.release()


# ------------------------------------------------------------------------------------------------ manager model
class Manager:
    def __init__(self, k):
        self.k = k
        self.up = k.plan['up_at'] == 0
        self.ctrl = dict(k.plan.get('loaded', {}))   # name -> state, of controllers and hardware components
        self.ctrl.update(k.plan.get('hw', {}))
        self.params = {}
        self.changes = []       # (t, name, state or None, by)
        self.busy = 0.0
        self.epoch = 0
        self.ncalls = {}
        for n, s in self.ctrl.items():
            self.changes.append((-1.0, n, s, 'before'))
        if not self.up:
            k.at(k.plan['up_at'], self.come_up)

    def come_up(self):
        self.up = True
        self.k.log('manager is up')
        for n, s in self.k.plan.get('hw', {}).items():
            if n not in self.ctrl:
                self.set(n, s, 'crash')

    def set(self, n, s, by):
        if s is None:
            self.ctrl.pop(n, None)
        else:
            self.ctrl[n] = s
        self.changes.append((self.k.now, n, s, by))

    def external(self, m):
        k = self.k
        if m['op'] == 'crash':
            k.log('manager crashes')
            k.fault('manager-crash')
            self.up = False
            self.epoch += 1
            self.params = {}
            self.busy = k.now
            for n in list(self.ctrl):
                self.set(n, None, 'crash')
            if m.get('down') is not None:
                k.at(k.now + m['down'], self.come_up)
        elif m['op'] == 'hardware':
            if self.up and m['name'] in self.ctrl and self.ctrl[m['name']] != 'finalized':
                k.log(f'somebody else: {m["name"]} to {m["state"]}')
                k.fault('interference:hardware')
                self.set(m['name'], m['state'], 'other')
        elif self.up and m['name'] in self.ctrl:
            n, st = m['name'], self.ctrl[m['name']]
            to = {'deactivate': {'active': 'inactive'}, 'activate': {'inactive': 'active'}, 'unload': {'inactive': None, 'unconfigured': None}}[m['op']]
            if st in to:
                k.log(f'somebody else: {m["op"]} {n}')
                k.fault('interference:' + m['op'])
                self.set(n, to[st], 'other')

    def request(self, a, service, req, future):
        k = self.k
        i = a.calls
        a.calls += 1
        f = a.spec['faults'].get(str(i), {})
        names = names_of(service, req)
        k.log(f'{a.name} calls {service} {" ".join(names)}')
        Oracle(k).called(a, service, names, req)
        if f:
            for x in f:
                k.fault('call:' + x)
            a.faulty = True
        if 'drop_request' in f or not self.up:
            return
        epoch = self.epoch
        arrive = max(k.now + f.get('delay_request', 0.001), getattr(a, 'last_arrival', 0.0))
        a.last_arrival = arrive

        def start():
            if not self.up or self.epoch != epoch:
                return
            begin = max(k.now, self.busy)
            self.busy = begin + f.get('slow', 0.002 + 0.2 * k.rng.random())
            k.at(self.busy, process)

        def process():
            if not self.up or self.epoch != epoch:
                return
            res = self.handle(a, service, req, 'fail' in f)
            k.log(f'manager: {service} {" ".join(names)} of {a.name} -> {getattr(res, "ok", "done")}')
            if getattr(res, 'ok', True) is False:
                a.refused = True
            if 'drop_answer' in f:
                return
            k.at(k.now + f.get('delay_answer', 0.001), lambda: future.set(res))
        k.at(arrive, start)

    def env_state(self, a, s):
        return a.env.State(id={None: 0, 'unconfigured': 1, 'inactive': 2, 'active': 3, 'finalized': 4}[s], label=s or '')

    def handle(self, a, service, req, fail):
        c = self.ctrl
        R = Obj()
        if service == 'list_controllers':
            R.controller = [Obj(name=n, state=s, type='sim/' + n, claimed_interfaces=[], required_command_interfaces=[], required_state_interfaces=[], is_chainable=False, is_chained=False, exported_state_interfaces=[], reference_interfaces=[], chain_connections=[], update_rate=100) for n, s in c.items() if n not in HARDWARE]
            return R
        if service == 'list_hardware_components':
            R.component = [Obj(name=n, type='system', state=self.env_state(a, s)) for n, s in c.items() if n in HARDWARE]
            return R
        if service == 'set_hardware_component_state':
            n, to = req.name, {1: 'unconfigured', 2: 'inactive', 3: 'active', 4: 'finalized'}.get(req.target_state.id)
            if n not in c or n not in HARDWARE:
                R.ok, R.state = False, self.env_state(a, None)
                return R
            order = ['unconfigured', 'inactive', 'active']
            if c[n] in order and to in order:
                i, j = order.index(c[n]), order.index(to)
                if fail:      # stops on the way or does not even start
                    j = i + (j > i) - (j < i) if abs(j - i) > 1 else i
                if order[j] != c[n]:
                    self.set(n, order[j], a.idx)
            R.ok = c[n] == to and not fail
            R.state = self.env_state(a, c[n])
            return R
        if service == 'set_parameters':
            R.results = []
            for p in req.parameters:
                if not fail:
                    self.params[p.name] = p.value.value
                R.results.append(Obj(successful=not fail, reason='refused' if fail else ''))
            return R
        R.ok, R.message = False, ''
        if fail:
            return R
        n = getattr(req, 'name', None)
        by = a.idx
        if service == 'load_controller' and n not in c:
            self.set(n, 'unconfigured', by)
            R.ok = True
        elif service == 'configure_controller' and c.get(n) in ('unconfigured', 'inactive'):
            self.set(n, 'inactive', by)
            R.ok = True
        elif service == 'cleanup_controller' and c.get(n) in ('unconfigured', 'inactive'):
            self.set(n, 'unconfigured', by)
            R.ok = True
        elif service == 'unload_controller' and c.get(n) in ('unconfigured', 'inactive'):
            self.set(n, None, by)
            R.ok = True
        elif service == 'switch_controller':
            on, off = list(req.activate_controllers), list(req.deactivate_controllers)
            if (on or off) and len(set(on)) == len(on) and all(c.get(x) == 'inactive' for x in on) and all(c.get(x) == 'active' for x in off):
                for x in off:
                    self.set(x, 'inactive', by)
                for x in on:
                    self.set(x, 'active', by)
                R.ok = True
            elif req.strictness == 1 and (any(c.get(x) == 'inactive' for x in on) or any(c.get(x) == 'active' for x in off)):
                for x in off:
                    if c.get(x) == 'active':
                        self.set(x, 'inactive', by)
                for x in on:
                    if c.get(x) == 'inactive':
                        self.set(x, 'active', by)
                R.ok = True
        return R


def names_of(service, req):
    if service == 'switch_controller':
        return ['+' + x for x in req.activate_controllers] + ['-' + x for x in req.deactivate_controllers]
    if service == 'set_parameters':
        return [p.name for p in req.parameters]
    return [req.name] if hasattr(req, 'name') else []


# ------------------------------------------------------------------------------------------------ oracle
READS = ('list_controllers', 'list_controller_types', 'list_hardware_components', 'list_hardware_interfaces')


class Oracle:
    def __init__(self, k):
        self.k = k

    def called(self, a, service, names, req):
        k = self.k
        if k.plan.get('prop') == 'C25':
            self.called25(a, service, names, req)
            return
        own = {c['name'] for c in a.spec['controllers']}
        if service in READS:
            return
        for n in names:
            base = n.lstrip('+-').split('.')[0]
            if base not in own:
                k.violate('foreign-controller', f'{a.name} ({a.spec["prog"]}) calls {service} for {n}, which it was not asked to handle')
        if a.spec['prog'] == 'spawner':
            if a.signalled is None and a.lock_held is None:
                k.violate('call-without-lock', f'{a.name} calls {service} without holding the lock of the spawners')
            if a.signalled is not None and not a.spec['unload'] :
                k.violate('request-after-interrupt', f'{a.name} calls {service} after it was interrupted')
            if a.signalled is not None and service in ('load_controller', 'configure_controller'):
                k.violate('spawns-after-interrupt', f'{a.name} calls {service} after it was interrupted')

    def called25(self, a, service, names, req):
        k, s = self.k, a.spec
        if service in READS:
            return
        own = {c['name'] for c in s['controllers']}
        allowed = {'hardware_spawner': ['set_hardware_component_state'], 'load_controller': ['load_controller', 'set_parameters', 'configure_controller', 'switch_controller'],
                   'set_controller_state': ['configure_controller', 'cleanup_controller', 'switch_controller'], 'switch_controllers': ['switch_controller'],
                   'unload_controller': ['unload_controller'], 'cleanup_controller': ['cleanup_controller'], 'set_hardware_component_state': ['set_hardware_component_state']}[s['prog'].split(':')[-1]]
        if service not in allowed:
            k.violate('wrong-service', f'{a.name} ({s["prog"]}) calls {service}')
        for n in names:
            if n.lstrip('+-').split('.')[0] not in own:
                k.violate('foreign', f'{a.name} ({s["prog"]}) calls {service} for {n}, which it was not asked to handle')
        if service == 'set_hardware_component_state':
            want = next((c['target'] for c in s['controllers'] if c['name'] == req.name), None)
            if want is not None and (req.target_state.id, req.target_state.label) != ({'unconfigured': 1, 'inactive': 2, 'active': 3}[want], want):
                k.violate('wrong-request', f'{a.name} asks for state {req.target_state.id} {req.target_state.label} of {req.name} instead of {want}')
        if service == 'switch_controller':
            on = [c['name'] for c in s['controllers'] if c['target'] == 'active']
            off = [c['name'] for c in s['controllers'] if c['target'] == 'inactive']
            if sorted(req.activate_controllers) != sorted(on) or sorted(req.deactivate_controllers) != sorted(off):
                k.violate('wrong-request', f'{a.name} asks to switch {" ".join(names)} instead of {" ".join(["+" + x for x in on] + ["-" + x for x in off])}')
            if 'strictness' in s and (int(req.strictness), bool(req.activate_asap), req.timeout.sec + req.timeout.nanosec / 1e9) != (s['strictness'], s['asap'], s['timeout']):
                k.violate('wrong-request', f'{a.name} asks for strictness {req.strictness}, asap {req.activate_asap}, timeout {req.timeout.sec}.{req.timeout.nanosec} instead of {s["strictness"]}, {s["asap"]}, {s["timeout"]}')

    def exited25(self, a, ok):
        k, m, s = self.k, self.k.mgr, a.spec
        if a.signalled is not None:
            return
        fine = {'loaded': lambda x: x is not None, 'gone': lambda x: x is None}
        if ok and s.get('strictness') not in (0, 1):
            for c in s['controllers']:
                k.probe('reached_checked')
                if not self.was(a, c['name'], fine.get(c['target'], lambda x: x == c['target'])):
                    k.violate('false-success', f'{a.name} ({s["prog"]}) reports success although {c["name"]} is {m.ctrl.get(c["name"], "not there")} instead of {c["target"]}')
                if c.get('files') and any(x[1] == c['name'] and x[3] == a.idx and x[2] == 'unconfigured' for x in m.changes) and not any(x[3] == 'crash' for x in m.changes if x[0] >= a.t_start):
                    for p in ('params_file', 'type'):
                        if f'{c["name"]}.{p}' not in m.params:
                            k.violate('parameters-not-set', f'{a.name} reports success although {p} of {c["name"]} was not set')
        if ok and s.get('strictness') in (0, 1) and getattr(a, 'refused', False) and self.clean_run(a):
            k.violate('false-success', f'{a.name} ({s["prog"]}) reports success although its request was refused')
        if not ok and s['prog'] == 'hardware_spawner' and self.clean_run(a) and not getattr(a, 'refused', False) and all(c['name'] in m.ctrl for c in s['controllers']):
            k.probe('undisturbed_failure_checked')
            k.violate('false-failure', f'{a.name} reports {a.exc or a.rc} although nothing went wrong')
        if not ok and s['prog'] != 'hardware_spawner' and self.clean_run(a) and not getattr(a, 'refused', False) and a.calls > (s['prog'] in ('cli:load_controller', 'cli:set_controller_state')):
            k.violate('false-failure', f'{a.name} ({s["prog"]}) reports {a.exc or a.rc} although all of its requests were granted')

    def clean_run(self, a):
        """nothing but this process (and its signals) changed anything"""
        k = self.k
        own = {c['name'] for c in a.spec['controllers']}
        return not any(getattr(b, 'faulty', False) for b in k.actors) and k.mgr.up and not any(m['op'] == 'crash' for m in k.plan['manager']) and \
            not any(n in own and by != a.idx for t, n, s, by in k.mgr.changes) and not any(b is not a and own & {c['name'] for c in b.spec['controllers']} for b in k.actors)

    def exited(self, a):
        k = self.k
        m = k.mgr
        lim = bound(a, k)
        since = a.t_start if a.signalled is None else a.signalled
        if lim is not None and a.t_exit - since > lim and not (a.signalled is None and a.spec['unload']):
            k.violate('slow-end', f'{a.name} ended {a.t_exit - since:.1f} s after its start or interruption, its timeouts add up to {lim:.1f} s')
        if a.exc is not None:
            e = a.exc
            allowed = isinstance(e, KeyboardInterrupt) or type(e).__name__ == 'ServiceNotFoundError' or (type(e) is RuntimeError and 'Could not successfully call service' in str(e))
            if isinstance(e, FileNotFoundError) and a.spec.get('missing_file'):
                allowed = True
            if not allowed:
                k.violate('crash/' + type(e).__name__, f'{a.name} ends with {type(e).__name__}: {e} in {getattr(a, "where", "")}')
        ok = a.exc is None and a.rc in (0, None)
        k.probe(('success' if ok else 'failure') + (':interrupted' if a.signalled is not None else ''))
        if k.plan.get('prop') == 'C25':
            self.exited25(a, ok)
            return
        if a.spec['prog'] == 'unspawner':
            if ok and a.signalled is None:
                for c in a.spec['controllers']:
                    if not self.was(a, c['name'], lambda s: s is None):
                        k.violate('false-success-unspawner', f'{a.name} reports success although {c["name"]} is {m.ctrl.get(c["name"])}')
            return
        if ok and a.signalled is None:
            if a.spec['unload']:
                k.violate('ends-without-interrupt', f'{a.name} with --unload-on-kill ends without having been interrupted')
            if a.spec.get('missing_file'):
                k.violate('missing-file-ignored', f'{a.name} reports success although a parameter file does not exist')
            self.reached(a)
        if a.signalled is not None and a.spec['unload']:
            mine = [c['name'] for c in a.spec['controllers'] if c['target'] == 'active']
            if ok:
                for n in [n for n in mine if any(x[1] == n and x[3] == a.idx for x in m.changes)]:
                    if not self.was(a, n, lambda s: s is None, a.signalled if any(x[1] == n and x[3] == a.idx and x[2] is None for x in m.changes) else None):
                        k.violate('false-success-unload', f'{a.name} was terminated and reports success although {n} is {m.ctrl.get(n)}')
            if self.clean_run(a) and a.exc is None or (self.clean_run(a) and not isinstance(a.exc, KeyboardInterrupt)):
                k.probe('unload_checked')
                left = [n for n in mine if n in m.ctrl]
                if left:
                    k.violate('not-unloaded', f'{a.name} was terminated and leaves {", ".join(n + " (" + m.ctrl[n] + ")" for n in left)}')
                elif not ok:
                    k.violate('unload-reported-failed', f'{a.name} was terminated, nothing went wrong and it reports {a.exc or a.rc}')
                for c in a.spec['controllers']:
                    if c['target'] == 'inactive' and any(x[1] == c['name'] and x[3] == a.idx and x[0] >= a.signalled + 1.0 and x[2] is None for x in m.changes):
                        k.violate('unloaded-too-much', f'{a.name} unloads {c["name"]}, which it was not told to activate')

    def reached(self, a):
        k, m = self.k, self.k.mgr
        for c in a.spec['controllers']:
            fine = {'loaded': lambda s: s is not None, 'inactive': lambda s: s in ('inactive', 'active'), 'active': lambda s: s == 'active'}[c['target']]
            k.probe('reached_checked')
            if not self.was(a, c['name'], fine):
                k.violate('false-success', f'{a.name} reports success although {c["name"]} is {m.ctrl.get(c["name"], "not loaded")} instead of {c["target"]}')
            loaded = [x for x in m.changes if x[1] == c['name'] and x[3] == a.idx and x[2] == 'unconfigured']
            crashed = any(x[3] == 'crash' for x in m.changes if x[0] >= a.t_start) or any(y['op'] == 'crash' and y['at'] >= a.t_start for y in k.plan['manager'] if y['at'] <= k.now)
            if loaded and not crashed:
                files = c.get('files', [])
                if any(c['name'] + s + '.yaml' in f for f in files for s in ('', '_fallback')):
                    k.probe('parameters_checked')
                    for p in ('params_file', 'type'):
                        if f'{c["name"]}.{p}' not in m.params:
                            k.violate('parameters-not-set', f'{a.name} reports success although {p} of {c["name"]} was not set')
                if c.get('ros_args') and f'{c["name"]}.node_options_args' not in m.params:
                    k.violate('parameters-not-set', f'{a.name} reports success although the ROS arguments of {c["name"]} were not set')

    def was(self, a, name, fine, since=None):
        """the state is fine now, or it was during the run and somebody else changed it later"""
        m = self.k.mgr
        if fine(m.ctrl.get(name)):
            return True
        st, was = None, False
        for t, n, s, by in m.changes:
            if n != name:
                continue
            if t >= a.t_start and fine(st):
                was = True
            st = s
            if t >= (since or a.t_start):
                if by == a.idx:
                    was = fine(s)
                elif fine(s):
                    was = True
                # changes by others do not take back what had been reached
        return was

    def final(self):
        k = self.k
        for a in k.actors:
            if not a.alive_at_end:
                continue
            lim = bound(a, k)
            if a.signalled is None and a.spec['unload'] and a.late_wait > 30:
                if a.lock_held is not None:
                    k.violate('lock-held-while-waiting', f'{a.name} waits for its termination and holds the lock')
                continue
            since = a.t_start if a.signalled is None else a.signalled
            if lim is not None and k.now - since > lim:
                k.violate('not-ending' + ('-after-interrupt' if a.signalled is not None else ''), f'{a.name} has not ended {k.now - since:.0f} s after its start or interruption, its timeouts add up to {lim:.0f} s')


def bound(a, k):
    """upper bound of the run time in s; None: it may wait for ever"""
    s = a.spec
    n = len(s['controllers'])
    if k.plan.get('prop') == 'C25' and a.signalled is not None:
        return None
    call, svc = max(s['call_timeout'], 10.0), s['cm_timeout']
    down = max([k.plan['up_at']] + [m['at'] + (m['down'] if m.get('down') is not None else 1e9) for m in k.plan['manager'] if m['op'] == 'crash'])
    if a.signalled is not None:
        svc = svc or call
        if s['prog'] == 'unspawner':
            return None
    elif not svc or s['prog'] == 'unspawner':
        if down > 1e8:
            return None
        svc = down + 15
    calls = 12 * n + 4
    b = 5 * 23 + 10 + calls * (max(svc, 0.0) + 3 * call)
    return b


# ------------------------------------------------------------------------------------------------ stubs
class Obj:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return 'Obj(' + ', '.join(f'{k}={v!r}' for k, v in self.__dict__.items()) + ')'


class Mod(types.ModuleType):
    """simulated module; what it lacks is a gap of the simulation"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Gap(f'{self.__name__}.{n}')


class Over(types.ModuleType):
    """real module with some names replaced"""
    def __init__(self, real, **kw):
        super().__init__(real.__name__)
        self.__dict__['_real'] = real
        self.__dict__.update(kw)

    def __getattr__(self, n):
        return getattr(self.__dict__['_real'], n)


def srv_types():
    """service types from the definitions of the repository"""
    out = {}
    d = REPO + '/controller_manager_msgs/srv'
    for f in sorted(os.listdir(d)):
        if not f.endswith('.srv'):
            continue
        part, parts = [], []
        for line in open(d + '/' + f):
            line = line.split('#')[0].strip()
            if line == '---':
                parts.append(part)
                part = []
            elif line:
                part.append(line)
        parts.append(part)
        cls = {}
        for nm, p in zip(('Request', 'Response'), parts):
            consts, fields = {}, {}
            for line in p:
                t, rest = line.split(None, 1)
                if '=' in rest:
                    n, v = rest.split('=')
                    consts[n.strip()] = int(v) if v.strip().lstrip('-').isdigit() else v.strip()
                else:
                    fields[rest.split()[0]] = [] if '[' in t else False if t == 'bool' else '' if t.startswith('string') else 0 if t[:3] in ('int', 'uin', 'flo') else None

            def init(self, fields=fields, **kw):
                for n, v in fields.items():
                    setattr(self, n, list(v) if isinstance(v, list) else v)
                for n, v in kw.items():
                    if n not in fields:
                        raise AssertionError(f'Invalid arguments passed to constructor: {n}')
                    setattr(self, n, v)
            cls[nm] = type(nm, (), dict(consts, __init__=init, __slots__=tuple(fields)))
        out[f[:-4]] = type(f[:-4], (), cls)
    return out


_code = {}


def code_of(path):
    if path not in _code:
        _code[path] = compile(open(path).read(), path, 'exec')
    return _code[path]


_srv = None


class Env:
    """the world of one simulated process"""
    def __init__(self, k, a):
        global _srv
        self.k, self.a = k, a
        if _srv is None:
            _srv = srv_types()
        env = self

        class Logger:
            def _l(self, *x, **y):
                a.point()
                return True
            debug = info = warning = warn = error = fatal = _l

            def get_child(self, n):
                return self

            def set_level(self, lvl):
                pass

        class Future:
            def __init__(self):
                self._r, self._done, self._cb = None, False, []

            def set(self, r):
                if not self._done:
                    self._r, self._done = r, True
                    for c in self._cb:
                        c(self)

            def result(self):
                return self._r

            def done(self):
                return self._done

            def exception(self):
                return None

            def cancelled(self):
                return False

            def cancel(self):
                pass

            def add_done_callback(self, c):
                self._cb.append(c)
                if self._done:
                    c(self)

        class Client:
            def __init__(self, name):
                self.srv_name = name
                self.service = name.rsplit('/', 1)[-1]
                self.ok = name == '/controller_manager/' + self.service

            def service_is_ready(self):
                a.point()
                return k.mgr.up and self.ok

            def wait_for_service(self, timeout_sec=None):
                return a.point(None if timeout_sec is None or timeout_sec < 0 else k.now + timeout_sec, lambda: k.mgr.up and self.ok)

            def call_async(self, req):
                a.point()
                f = Future()
                if self.ok:
                    k.mgr.request(a, self.service, req, f)
                return f

            def remove_pending_request(self, f):
                pass

            def destroy(self):
                pass

        class Node:
            def __init__(self, name, **kw):
                a.point()
                self._name = name

            def get_name(self):
                return self._name

            def get_namespace(self):
                return '/'

            def get_fully_qualified_name(self):
                return '/' + self._name

            def get_logger(self):
                return Logger()

            def create_client(self, t, name, **kw):
                a.point()
                return Client(name)

            def destroy_client(self, c):
                return True

            def destroy_node(self):
                a.point()
                return True

        def spin(node, future, executor=None, timeout_sec=None):
            a.point(None if timeout_sec is None or timeout_sec < 0 else k.now + timeout_sec, lambda: future.done())

        class Duration:
            def __init__(self, *, seconds=0, nanoseconds=0):
                if isinstance(seconds, str):    # rclpy does not end within memory or raises
                    raise TypeError('seconds must be a number')
                self.nanoseconds = int(seconds * 10**9) + nanoseconds

            def to_msg(self):
                return Obj(sec=self.nanoseconds // 10**9, nanosec=self.nanoseconds % 10**9)

        class Timeout(TimeoutError):
            def __init__(self, lock_file):
                super().__init__()
                self.lock_file = lock_file

        class FileLock:
            def __init__(self, lock_file, timeout=-1, **kw):
                self.lock_file, self.timeout, self._n = str(lock_file), timeout, 0

            @property
            def is_locked(self):
                return self._n > 0

            def acquire(self, timeout=None, poll_interval=0.05, *, blocking=True, **kw):
                t = self.timeout if timeout is None else timeout
                a.point()
                if self._n == 0:
                    free = lambda: self.lock_file not in k.locks
                    if not blocking:
                        got = free()
                    else:
                        got = a.point(None if t is None or t < 0 else k.now + t, free)
                    if not got:
                        k.probe('lock_timeout')
                        raise Timeout(self.lock_file)
                    k.locks[self.lock_file] = a
                    a.lock_held = k.now
                    k.log(f'{a.name} has the lock')
                self._n += 1
                return self

            def release(self, force=False):
                if self._n:
                    self._n = 0 if force else self._n - 1
                    if self._n == 0 and not a.killed:
                        k.locks.pop(self.lock_file, None)
                        a.lock_held = None
                        k.log(f'{a.name} releases the lock')
                        a.point()

            __enter__ = acquire

            def __exit__(self, *x):
                self.release()

        def sleep(s):
            if a.lock_held is not None:
                a.slept_with_lock += s
                if a.slept_with_lock > 30:
                    k.violate('lock-held-while-waiting', f'{a.name} sleeps {a.slept_with_lock:.0f} s while it holds the lock')
            a.late_wait += s
            a.point(k.now + s, lambda: False)

        def on_signal(n, h):
            import signal as real
            old = a.handlers.get(int(n), real.default_int_handler if int(n) == 2 else real.SIG_DFL)
            a.handlers[int(n)] = 'ignore' if h == real.SIG_IGN else 'default' if h == real.SIG_DFL else h
            return old

        def pause():
            a.late_wait += 100
            a.point(None, lambda: False)

        def default_int(s, f):
            raise KeyboardInterrupt()
        a.handlers[2] = default_int    # Python's default

        def remove_ros_args(args=None):
            out, skip = [], False
            for x in args or []:
                if x == '--ros-args':
                    skip = True
                elif x == '--':
                    skip = False
                elif not skip:
                    out.append(x)
            return out

        def get_parameter_value(string_value=''):
            import yaml
            return Obj(value=yaml.safe_load(string_value), string=string_value)

        def module(name, **kw):
            m = Mod(name)
            m.__dict__.update(kw)
            return m
        import signal as rsignal, time as rtime
        nothing = lambda *x, **y: None
        argv = [a.spec['prog']] + a.argv
        ext = getattr(sys, 'exit')
        node_mod = module('rclpy.node', Node=Node)
        sig_mod = module('rclpy.signals', SignalHandlerOptions=Obj(NO=0, ALL=1, SIGINT=2, SIGTERM=3))
        par_mod = module('rclpy.parameter', get_parameter_value=get_parameter_value)
        util = module('rclpy.utilities', remove_ros_args=remove_ros_args)
        logm = module('rclpy.logging', get_logger=lambda n: Logger())
        dur = module('rclpy.duration', Duration=Duration)
        rcl = module('rclpy', init=nothing, shutdown=nothing, try_shutdown=nothing, ok=lambda **x: True, spin_until_future_complete=spin, create_node=lambda n, **x: Node(n, **x),
                     node=node_mod, signals=sig_mod, parameter=par_mod, utilities=util, logging=logm, duration=dur)
        msg = lambda n, **d: type(n, (), {'__init__': lambda self, **kw: self.__dict__.update(d, **kw)})
        SetParameters = type('SetParameters', (), {'Request': msg('Request', parameters=[]), 'Response': msg('Response', results=[])})
        State = msg('State', id=0, label='')
        State.__eq__ = lambda x, y: (x.id, x.label) == (y.id, y.label)
        State.__ne__ = lambda x, y: not x == y
        State.__hash__ = None
        for i, n in enumerate(('UNKNOWN', 'UNCONFIGURED', 'INACTIVE', 'ACTIVE', 'FINALIZED')):
            setattr(State, 'PRIMARY_STATE_' + n, i)
        self.State = State

        def add_arguments(parser):
            parser.add_argument('--spin-time', type=float, default=None)
            parser.add_argument('-s', '--use-sim-time', action='store_true')
            parser.add_argument('--no-daemon', action='store_true')

        class DirectNode:
            def __init__(self, args, node_name=None):
                self.node = Node(node_name or '_ros2cli')

            def __enter__(self):
                return self.node

            def __exit__(self, *x):
                self.node.destroy_node()

        class NodeStrategy:
            def __init__(self, args, node_name=None):
                self.direct_node = DirectNode(args, node_name)

            def __enter__(self):
                return self

            def __exit__(self, *x):
                pass
        self.table = {
            'rclpy': rcl, 'rclpy.node': node_mod, 'rclpy.signals': sig_mod, 'rclpy.parameter': par_mod, 'rclpy.utilities': util, 'rclpy.logging': logm, 'rclpy.duration': dur,
            'filelock': module('filelock', FileLock=FileLock, Timeout=Timeout),
            'time': Over(rtime, sleep=sleep, time=lambda: 1.7e9 + k.now, monotonic=lambda: k.now, perf_counter=lambda: k.now, monotonic_ns=lambda: int(k.now * 1e9)),
            'signal': Over(rsignal, signal=on_signal, pause=pause),
            'sys': Over(sys, argv=argv, stdout=Quiet(), stderr=Quiet()),
            'os': Over(os, getenv=lambda n, d=None: scratch() if n == 'ROS_HOME' else d),
            'rcl_interfaces': module('rcl_interfaces'), 'rcl_interfaces.msg': module('rcl_interfaces.msg', Parameter=msg('Parameter', name='', value=None)),
            'rcl_interfaces.srv': module('rcl_interfaces.srv', SetParameters=SetParameters, ListParameters=object),
            'ros2cli': module('ros2cli'), 'ros2cli.node': module('ros2cli.node'), 'ros2cli.node.direct': module('ros2cli.node.direct', add_arguments=add_arguments, DirectNode=DirectNode),
            'ros2cli.node.strategy': module('ros2cli.node.strategy', NodeStrategy=NodeStrategy, add_arguments=add_arguments), 'ros2cli.verb': module('ros2cli.verb', VerbExtension=object),
            'ros2node': module('ros2node'), 'ros2node.api': module('ros2node.api', NodeNameCompleter=lambda **x: None),
            'lifecycle_msgs': module('lifecycle_msgs'), 'lifecycle_msgs.msg': module('lifecycle_msgs.msg', State=State),
            'controller_manager_msgs': module('controller_manager_msgs'), 'controller_manager_msgs.srv': module('controller_manager_msgs.srv', **_srv),
        }
        self.own = {}

    def load(self, name):
        if name in self.own:
            return self.own[name]
        path = PKG + '/__init__.py' if name == 'controller_manager' else PKG + '/' + name.split('.', 1)[1] + '.py'
        if name.startswith('ros2controlcli'):
            path = REPO + '/ros2controlcli/' + name.replace('.', '/')
            path = path + '/__init__.py' if os.path.isdir(path) else path + '.py'
        if not os.path.exists(path):
            raise Gap('module ' + name)
        m = types.ModuleType(name)
        m.__package__ = name if path.endswith('__init__.py') else name.rsplit('.', 1)[0]
        m.__file__ = path
        self.own[name] = m
        b = dict(vars(builtins))
        b['__import__'] = self.imp
        b['print'] = lambda *x, **y: None
        m.__dict__['__builtins__'] = b
        exec(code_of(path), m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get('__package__') or 'controller_manager'
            name = '.'.join(base.split('.')[:len(base.split('.')) - level + 1]) + ('.' + name if name else '')
        if name == 'ros2controlcli' or name.startswith('ros2controlcli.'):
            if not fromlist:
                raise Gap('import of ' + name)
            return self.load(name)
        if name == 'controller_manager' or name.startswith('controller_manager.'):
            m = self.load('controller_manager')
            if name != 'controller_manager':
                s = self.load(name)
                setattr(m, name.split('.', 1)[1], s)
                m = s if fromlist else m
            return m
        if name in self.table:
            return self.table[name] if fromlist or '.' not in name else self.table[name.split('.')[0]]
        if name.split('.')[0] in ('rclpy', 'launch', 'launch_ros', 'ros2param', 'ros2cli', 'rcl_interfaces', 'lifecycle_msgs', 'controller_manager_msgs'):
            raise Gap('import of ' + name)
        if name in ('threading', 'multiprocessing', 'asyncio', 'subprocess', 'socket', 'select', 'fcntl'):
            raise Gap('import of ' + name)
        return __import__(name, globals, locals, fromlist, 0)

    def main(self):
        prog = self.a.spec['prog']
        if prog.startswith('cli:'):
            import argparse
            verb = getattr(self.load('ros2controlcli.verb.' + prog[4:]), ''.join(x.capitalize() for x in prog[4:].split('_')) + 'Verb')()
            parser = argparse.ArgumentParser()
            verb.add_arguments(parser, 'ros2')
            return verb.main(args=parser.parse_args(self.a.argv))
        m = self.load('controller_manager.' + prog)
        return m.main()


class Quiet:
    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False


# ------------------------------------------------------------------------------------------------ generator
def generate25(seed):
    """hardware spawners and command line verbs"""
    r = random.Random(f'C25-{seed}')
    yes = lambda x: r.random() < x
    p = {'prop': 'C25', 'seed': seed, 'sched_seed': r.randrange(2**32), 'procs': [], 'manager': [], 'horizon': 4000.0, 'loaded': {}, 'hw': {}}
    calm = yes(0.3)
    p['up_at'] = 0 if calm or yes(0.8) else round(r.uniform(0.1, 60), 3)
    for n in NAMES:
        if yes(0.6):
            p['loaded'][n] = r.choice(['unconfigured', 'inactive', 'inactive', 'active'])
    for n in HARDWARE:
        if yes(0.85):
            p['hw'][n] = r.choice(['unconfigured', 'unconfigured', 'inactive', 'active', 'active' if yes(0.7) else 'finalized'])
    for i in range(r.choice([1, 1, 1, 2, 3])):
        prog = r.choice(['hardware_spawner'] * 5 + ['cli:load_controller', 'cli:set_controller_state', 'cli:set_controller_state', 'cli:switch_controllers', 'cli:switch_controllers', 'cli:unload_controller',
                                                    'cli:cleanup_controller', 'cli:set_hardware_component_state', 'cli:set_hardware_component_state'])
        s = {'prog': prog, 'start': round(r.choice([0, r.uniform(0, 3), r.uniform(0, 40)]), 4), 'faults': {}, 'signals': [], 'controllers': [], 'unload': False, 'cm_timeout': 0.0, 'call_timeout': 10.0}
        pool = [x for x in NAMES if x in p['loaded']] if yes(0.8) and p['loaded'] else NAMES
        c = r.choice(pool)
        if prog == 'hardware_spawner':
            names = r.sample(HARDWARE, r.choice([1, 1, 2, 3]))
            t = r.choice(['active', 'inactive'])
            argv = names + ['--activate' if t == 'active' else '--configure']
            if yes(0.5):
                s['cm_timeout'] = r.choice([1.0, 5.0, 20.0])
                argv += ['--controller-manager-timeout', str(s['cm_timeout'])]
            if yes(0.3):
                argv += ['-c', r.choice(['controller_manager', '/controller_manager'])]
            s['controllers'] = [{'name': x, 'target': t} for x in names]
        elif prog == 'cli:load_controller':
            t = r.choice(['loaded', 'inactive', 'active'])
            one = {'name': c, 'target': t}
            argv = [c]
            if yes(0.4):
                one['files'] = [scratch() + '/' + c + '.yaml']
                argv += one['files']
            if t != 'loaded':
                argv += ['--set-state', t]
            s['controllers'] = [one]
        elif prog == 'cli:set_controller_state':
            t = r.choice(['unconfigured', 'inactive', 'active'])
            argv = [c, t]
            s['controllers'] = [{'name': c, 'target': t}]
        elif prog == 'cli:switch_controllers':
            some = r.sample(NAMES, r.choice([1, 2, 3]))
            want = {'inactive': 'active', 'active': 'inactive'}
            s['controllers'] = [{'name': x, 'target': want.get(p['loaded'].get(x)) if yes(0.85) and p['loaded'].get(x) in want else r.choice(['active', 'inactive'])} for x in some]
            on = [x['name'] for x in s['controllers'] if x['target'] == 'active']
            off = [x['name'] for x in s['controllers'] if x['target'] == 'inactive']
            argv = (['--activate'] + on if on else []) + (['--deactivate'] + off if off else [])
            s['strictness'], s['asap'], s['timeout'] = r.choice([2, 2, 1, 0]), yes(0.4), 5.0
            argv += ['--strict'] if s['strictness'] == 2 else ['--best-effort'] if s['strictness'] == 1 else []
            argv += ['--activate-asap'] if s['asap'] else []
            if yes(0.4):
                s['timeout'] = r.choice([0.5, 2.0, 12.25])
                argv += ['--switch-timeout', str(s['timeout'])]
        elif prog == 'cli:set_hardware_component_state':
            h, t = r.choice(HARDWARE), r.choice(['unconfigured', 'inactive', 'active'])
            argv = [h, t]
            s['controllers'] = [{'name': h, 'target': t}]
        else:
            argv = [c]
            s['controllers'] = [{'name': c, 'target': 'gone' if prog == 'cli:unload_controller' else 'unconfigured'}]
        s['argv'] = argv
        if not calm and yes(0.6):
            rate = r.choice([0.1, 0.25, 0.5])
            for i in range(15):
                if yes(rate):
                    f = r.choice(['drop_request', 'drop_answer', 'drop_answer', 'delay_answer', 'slow', 'delay_request', 'fail', 'fail'])
                    s['faults'][str(i)] = {f: round(r.choice([r.uniform(0.1, 2), r.uniform(1, 30)]), 3) if f in ('delay_answer', 'slow', 'delay_request') else True}
        if yes(0.08):
            s['signals'].append({'sig': 2, 'point': r.randrange(1, 30)})
        if not calm and yes(0.04):
            s['kill'] = round(s['start'] + r.uniform(0, 5), 4)
        p['procs'].append(s)
    if not calm:
        if yes(0.15):
            m = {'op': 'crash', 'at': round(r.choice([r.uniform(0, 3), r.uniform(0, 60)]), 4)}
            if yes(0.7):
                m['down'] = round(r.uniform(0.1, 60), 3)
            p['manager'].append(m)
        for _ in range(r.choice([0, 0, 1, 3])):
            at = round(r.choice([r.uniform(0, 5), r.uniform(5, 100)]), 4)
            p['manager'].append({'op': 'hardware', 'name': r.choice(HARDWARE), 'state': r.choice(['unconfigured', 'inactive', 'active']), 'at': at} if yes(0.5) else
                                {'op': r.choice(['activate', 'deactivate', 'unload']), 'name': r.choice(NAMES), 'at': at})
    return p


def generate(seed):
    if PROP == 'C25':
        return generate25(seed)
    r = random.Random(f'C22-{seed}')
    p = {'seed': seed, 'sched_seed': r.randrange(2**32), 'procs': [], 'manager': [], 'horizon': 4000.0, 'loaded': {}}
    yes = lambda x: r.random() < x
    calm = yes(0.25)        # no faults but signals
    p['up_at'] = 0 if calm or yes(0.75) else round(r.uniform(0.1, 60), 3)
    for n in NAMES:
        if yes(0.12):
            p['loaded'][n] = r.choice(['unconfigured', 'inactive', 'active'])
    n = r.choice([1, 1, 1, 2, 2, 3])
    taken = []
    for i in range(n):
        un = not calm and yes(0.15) and (i > 0 or p['loaded'])
        free = [x for x in NAMES if x not in taken]
        pool = free if free and yes(0.85) else NAMES
        if un:
            pool = NAMES
        names = r.sample(pool, min(len(pool), r.choice([1, 1, 2, 2, 3])))
        if not un:
            taken += names
        s = {'prog': 'unspawner' if un else 'spawner', 'start': round(r.choice([0, r.uniform(0, 3), r.uniform(0, 40)]), 4), 'faults': {}, 'signals': [], 'controllers': [],
             'unload': False, 'cm_timeout': 0.0, 'call_timeout': 10.0}
        argv = []
        if un:
            s['controllers'] = [{'name': x, 'target': 'gone'} for x in names]
            argv = list(names)
            if yes(0.5):
                argv += ['--switch-timeout', str(r.choice([1.0, 5.0, 30.0]))]
        else:
            glob = []
            if yes(0.4):
                s['cm_timeout'] = r.choice([1.0, 5.0, 20.0])
                glob += ['--controller-manager-timeout', str(s['cm_timeout'])]
            if yes(0.4):
                s['call_timeout'] = r.choice([0.5, 2.0, 5.0, 20.0])
                glob += ['--service-call-timeout', str(s['call_timeout'])]
            if yes(0.3):
                glob += ['--switch-timeout', str(r.choice([0.5, 5.0, 30.0]))]
            if yes(0.3):
                glob.append('--activate-as-group')
            if yes(0.2):
                glob.append(r.choice(['--switch-asap', '--no-switch-asap']))
            if yes(0.45):
                s['unload'] = True
                glob.append(r.choice(['-u', '--unload-on-kill']))
            d = scratch()

            def extras(c):
                x = []
                if yes(0.3):
                    f = d + '/' + r.choice([c['name'] + '.yaml', c['name'] + '.yaml', c['name'] + '_fallback.yaml', 'empty.yaml'])
                    c['files'] = [f]
                    x += [r.choice(['-p', '--param-file']), f]
                if yes(0.12):
                    c['ros_args'] = True
                    x += ['--controller-ros-args', '-r a:=b']
                return x
            if yes(0.5):
                argv = glob
                for x in names:
                    c = {'name': x, 'target': r.choice(['active', 'active', 'active', 'inactive', 'loaded'])}
                    argv += ['--controller', x] + ([] if c['target'] == 'active' else ['--inactive'] if c['target'] == 'inactive' else ['--load-only']) + extras(c)
                    s['controllers'].append(c)
            else:
                t = r.choice(['active', 'active', 'active', 'inactive', 'loaded'])
                cs = [{'name': x, 'target': t} for x in names]
                x = extras(cs[0]) if len(cs) == 1 else []
                argv = list(names) + ([] if t == 'active' else ['--inactive'] if t == 'inactive' else ['--load-only']) + glob + x
                s['controllers'] = cs
            if yes(0.02):
                s['missing_file'] = True
                s['controllers'][-1].setdefault('files', []).append(d + '/missing.yaml')
                argv += ['-p', d + '/missing.yaml']
            ended = s['unload'] or yes(0.15)
            if ended:
                for _ in range(r.choice([1, 1, 1, 2, 3])):
                    g = {'sig': r.choice([2, 2, 15])}
                    if yes(0.5):
                        g['point'] = r.randrange(1, 90)
                    else:
                        g['at'] = round(s['start'] + r.choice([r.uniform(0, 3), r.uniform(30, 200)]), 4)
                    s['signals'].append(g)
                if yes(0.8):
                    s['signals'].append({'sig': 2, 'at': round(s['start'] + r.uniform(300, 900), 3)})
            if not calm and yes(0.05):
                s['kill'] = round(s['start'] + r.uniform(0, 5), 4)
        s['argv'] = argv
        if not calm and yes(0.6):
            rate = r.choice([0.05, 0.15, 0.4])
            for c in range(40):
                if yes(rate):
                    f = r.choice(['drop_request', 'drop_answer', 'drop_answer', 'delay_answer', 'slow', 'delay_request', 'fail'])
                    s['faults'][str(c)] = {f: round(r.choice([r.uniform(0.1, 2), r.uniform(1, 30)]), 3) if f in ('delay_answer', 'slow', 'delay_request') else True}
        p['procs'].append(s)
    if not calm:
        if yes(0.15):
            m = {'op': 'crash', 'at': round(r.choice([r.uniform(0, 3), r.uniform(0, 60), r.uniform(200, 600)]), 4)}
            if yes(0.7):
                m['down'] = round(r.uniform(0.1, 60), 3)
            p['manager'].append(m)
        for _ in range(r.choice([0, 0, 0, 1, 3])):
            p['manager'].append({'op': r.choice(['activate', 'deactivate', 'deactivate', 'unload']), 'name': r.choice(NAMES), 'at': round(r.choice([r.uniform(0, 5), r.uniform(5, 400)]), 4)})
    return p


def execute(plan, verbose=False):
    k = Kernel(json.loads(json.dumps(plan)), verbose)
    k.run()
    return k


# ------------------------------------------------------------------------------------------------ minimiser
def minimise(plan, sig, wall=30.0):
    t0 = time.time()

    def holds(p):
        try:
            return any(v['sig'] == sig for v in execute(p).viol)
        except Exception:
            return False
    cur = json.loads(json.dumps(plan))
    progress = True
    while progress and time.time() - t0 < wall:
        progress = False
        cands = []
        for i in range(len(cur['procs'])):
            cands.append(('proc', i))
            cands += [('fault', i, f) for f in cur['procs'][i]['faults']]
            cands += [('signal', i, j) for j in range(len(cur['procs'][i]['signals']))]
            cands += [('kill', i)] if 'kill' in cur['procs'][i] else []
        cands += [('mgr', j) for j in range(len(cur['manager']))] + [('loaded', n) for n in cur['loaded']] + [('hw', n) for n in cur.get('hw', {})]
        if cur['up_at']:
            cands.append(('up',))
        for c in cands:
            p = json.loads(json.dumps(cur))
            try:
                if c[0] == 'proc':
                    if len(p['procs']) < 2:
                        continue
                    del p['procs'][c[1]]
                elif c[0] == 'fault':
                    del p['procs'][c[1]]['faults'][c[2]]
                elif c[0] == 'signal':
                    del p['procs'][c[1]]['signals'][c[2]]
                elif c[0] == 'kill':
                    del p['procs'][c[1]]['kill']
                elif c[0] == 'mgr':
                    del p['manager'][c[1]]
                elif c[0] in ('loaded', 'hw'):
                    del p[c[0]][c[1]]
                else:
                    p['up_at'] = 0
            except (KeyError, IndexError):
                continue
            if holds(p):
                cur = p
                progress = True
                break
    return cur


def portable(plan, back=False):
    """plan with the scratch directory replaced by a placeholder"""
    s = json.dumps(plan, indent=1)
    return json.loads(s.replace('@SCRATCH@', scratch()) if back else s.replace(scratch(), '@SCRATCH@'))


def cleanup():
    import shutil
    if SCRATCH and os.path.basename(SCRATCH).startswith('spawner_sim.'):
        shutil.rmtree(SCRATCH, ignore_errors=True)


def batch(start, count):
    out = {'runs': 0, 'gaps': {}, 'viol': {}, 'faults': {}, 'probes': {}, 'sim_s': 0.0, 'steps': 0, 'switches': 0, 'digests': [], 'calls': 0}
    for s in range(start, start + count):
        k = execute(generate(s))
        out['runs'] += 1
        if k.gap is not None or k.steps > 20000:
            g = k.gap or 'too many steps'
            out['gaps'][g] = out['gaps'].get(g, 0) + 1
            continue
        out['sim_s'] += k.now
        out['steps'] += k.steps
        out['switches'] += k.switches
        out['calls'] += sum(a.calls for a in k.actors)
        out['digests'].append(k.digest.hexdigest()[:12])
        for d, e in (('faults', k.faults), ('probes', k.probes)):
            for n, v in e.items():
                out[d][n] = out[d].get(n, 0) + v
        for v in k.viol:
            o = out['viol'].setdefault(v['sig'], {'sig': v['sig'], 'msg': v['msg'], 'seed': s, 'count': 0})
            o['count'] += 1
    return out


def main():
    sys.setrecursionlimit(5000)
    threading.stack_size(256 * 1024)
    cmd = sys.argv[1]
    try:
        if cmd == 'plan':
            print(json.dumps(portable(generate(int(sys.argv[2]))), indent=1))
        elif cmd in ('run', 'replay'):
            plan = generate(int(sys.argv[2])) if cmd == 'run' else portable(json.load(open(sys.argv[2]))['plan'], True)
            k = execute(plan, True)
            print('\n'.join(k.history).replace(scratch(), '@SCRATCH@'))
            for v in k.viol:
                print('VIOL', v['sig'], v['msg'])
            if k.gap:
                print('GAP', k.gap)
            print('HASH', k.digest.hexdigest())
            sys.exit(1 if k.viol else 0)
        elif cmd == 'minimise':   # SEED SIG OUT
            m = minimise(generate(int(sys.argv[2])), sys.argv[3])
            json.dump({'violation': sys.argv[3], 'seed': int(sys.argv[2]), 'plan': portable(m), 'history': [h.replace(scratch(), '@SCRATCH@') for h in execute(m).history]}, open(sys.argv[4], 'w'), indent=1)
        elif cmd == 'batch':
            print(json.dumps(batch(int(sys.argv[2]), int(sys.argv[3]))))
    finally:
        cleanup()


if __name__ == '__main__':
    main()

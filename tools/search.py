"""Runs slices of seeds in parallel simulator processes and adds the results up."""
import array, concurrent.futures, json, os, subprocess, tempfile, time


class SimError(RuntimeError):
    pass


def slice_run(sim, profile, start, count, wall, dump=None, kill=60):
    a = [sim, 'batch', '--profile', profile, '--from', str(start), '--count', str(count), '--workers', '1', '--wall', str(max(1, int(wall))), '--kill', str(kill)]
    if dump:
        a += ['--dump', dump]
    r = subprocess.run(a, capture_output=True, text=True, timeout=wall + 180)
    if r.returncode:
        raise SimError(f'simulator failed ({r.returncode}): {r.stderr[-2000:]}')
    return json.loads(r.stdout)


class Total:
    def __init__(self):
        self.n = {'runs': 0, 'incomplete': 0, 'killed': 0}
        self.maps = {'stats': {}, 'probes': {}, 'faults': {}, 'ops': {}}
        self.viol = {}
        self.scheds, self.states = set(), set()
        self.incomplete_seeds = []
        self.hash = 0
        self.wall = 0.0

    def add(self, j, dump=None):
        for k in self.n:
            self.n[k] += j[k]
        for m, d in self.maps.items():
            for k, x in j[m].items():
                d[k] = d.get(k, 0) + x
        for v in j['violations']:
            o = self.viol.get(v['sig'])
            if o is None:
                self.viol[v['sig']] = v
            else:
                c = o['count'] + v['count']
                if v['seed'] < o['seed']:
                    self.viol[v['sig']] = o = v
                o['count'] = c
        self.incomplete_seeds += j['incomplete_seeds']
        self.hash = (self.hash + int(j['hash'], 16)) % 2**64
        if dump:
            a = array.array('Q')
            a.frombytes(open(dump, 'rb').read())
            os.unlink(dump)
            i = a.index(0) if 0 in a else len(a)
            self.scheds.update(a[:i])
            self.states.update(a[i + 1:])


def search(sim, profile, start, count, wall, workers=8, slice_size=250, stop=None, dumps=False):
    """stop(total) is asked after every slice; returns the sums over all finished slices (whole prefix slices first)."""
    t0 = time.time()
    tot = Total()
    tmp = tempfile.mkdtemp(prefix='simsearch') if dumps else None
    slices = [(s, min(slice_size, start + count - s)) for s in range(start, start + count, slice_size)]
    it = iter(slices)
    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        pend = {}

        def more():
            left = wall - (time.time() - t0)
            if left <= 0:
                return False
            sl = next(it, None)
            if sl is None:
                return False
            d = os.path.join(tmp, str(sl[0])) if tmp else None
            pend[ex.submit(slice_run, sim, profile, sl[0], sl[1], left, d)] = d
            return True
        for _ in range(workers):
            more()
        stopped = False
        while pend:
            done, _ = concurrent.futures.wait(pend, return_when=concurrent.futures.FIRST_COMPLETED)
            for f in done:
                d = pend.pop(f)
                tot.add(f.result(), d)
                if stop and stop(tot):
                    stopped = True
                if not stopped:
                    more()
    if tmp:
        os.rmdir(tmp)
    tot.wall = time.time() - t0
    return tot

"""Run many seeds of a scenario in forked children; minimise and replay violations; write evidence.

A scenario object offers
  id            property id
  prepare()     import everything, single-threaded, in the parent
  phases        list of phase names; seeds are split over them in order (a phase may warm up state first)
  enter_phase(p)
  plan(seed, phase) -> JSON-able dict (configuration + operations)
  execute(plan, decider, cfg) -> (kernel, extra)   in the child; drives the kernel
  shrink(plan) -> iterable of smaller plans
  describe      dict for evidence
"""
import ctypes
import gc
import hashlib
import json
import os
import select
import signal
import sys
import time
import traceback

from . import kernel as kern
from .seams import real

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
CHILD_WALL = 100
LIVENESS = ('C11', 'C16', 'C20')     # properties that promise an end
LIBC = ctypes.CDLL(None)


def run_child(scn, plan, table, seed, keep_log=False):
    """Fork; run one simulation; return the result dict."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            LIBC.prctl(1, signal.SIGKILL)       # ends with the process that started it
            os.close(r)
            gc.disable()
            if os.environ.get('SIM_TRACE'):
                import faulthandler
                faulthandler.dump_traceback_later(float(os.environ['SIM_TRACE']), file=open('/tmp/simtrace.txt', 'w'))
            out = child_main(scn, plan, table, seed, keep_log)
            data = json.dumps(out, default=str).encode()
        except BaseException:
            data = json.dumps({'end': ['harness', traceback.format_exc()]}).encode()
        try:
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        finally:
            os._exit(code)
    os.close(w)
    buf = bytearray()
    deadline = real.time() + CHILD_WALL
    dead = False
    while True:
        left = deadline - real.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            dead = True
            break
        rl, _, _ = select.select([r], [], [], min(left, 5))
        if not rl:
            continue
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    if dead:
        msg = 'the run never ends: no progress for %d s of real time' % CHILD_WALL
        if scn.id in LIVENESS:
            return {'end': ['violation', [scn.id, 'hang', msg]], 'seed': seed, 'digest': 'hang', 'virtual_ns': 0}
        return {'end': ['hang', msg], 'seed': seed}
    try:
        return json.loads(bytes(buf))
    except Exception:
        return {'end': ['harness', 'child died without a result: %r' % bytes(buf[:200])], 'seed': seed}


def child_main(scn, plan, table, seed, keep_log):
    from . import seams
    seams.reseed(seed)
    dec = kern.Decider(seed, table)
    k, extra = scn.execute(plan, dec, {'keep_log': keep_log})
    end = k.end
    if end is None:
        end = ('harness', 'no end')
    res = {
        'seed': seed, 'end': list(end), 'digest': k.digest(), 'stats': k.stats, 'steps': k.steps, 'lines': k.lines,
        'switches': k.switches, 'inter': k.inter, 'virtual_ns': k.now - 1_600_000_000 * kern.SEC,
        'tasks': len(k.tasks), 'soft': k.soft[:5], 'extra': extra,
    }
    if end[0] not in ('ok', 'idle') or keep_log:
        res['made'] = dec.made
    if keep_log:
        res['log'] = k.log
    return res


def is_violation(res, pid):
    return res['end'][0] == 'violation' and res['end'][1][0] == pid


# ---- minimisation ------------------------------------------------------------------------------------------------

def same(res, pid, kind):
    return is_violation(res, pid) and res['end'][1][1] == kind


class Minimiser:
    def __init__(self, scn, plan, seed, res, budget, jobs, log):
        self.scn, self.plan, self.seed = scn, plan, seed
        self.pid, self.kind = res['end'][1][0], res['end'][1][1]
        self.best = res
        self.table = dict(res.get('made', {}))
        self.deadline = real.time() + budget
        self.tries = 0
        self.jobs = jobs
        self.log = log

    def out_of_time(self):
        return real.time() > self.deadline

    def try_many(self, cands):
        """cands: list of (plan, table). First one reproducing the violation (in order), or None."""
        i = 0
        while i < len(cands) and not self.out_of_time():
            batch = cands[i:i + self.jobs]
            pids = []
            for c in batch:
                pids.append(spawn_job(lambda c=c: run_child(self.scn, c[0], c[1], self.seed)))
            results = [collect_job(p) for p in pids]
            self.tries += len(batch)
            for c, r in zip(batch, results):
                if r and same(r, self.pid, self.kind):
                    return c, r
            i += len(batch)
        return None

    def run(self):
        # 1. does the recorded table alone reproduce it?
        got = self.try_many([(self.plan, self.table)])
        if got is None:
            return None
        self.best = got[1]
        progress = True
        while progress and not self.out_of_time():
            progress = False
            # 2. smaller plans
            while not self.out_of_time():
                cands = [(p, self.table) for p in self.scn.shrink(self.plan)]
                got = self.try_many(cands)
                if got is None:
                    break
                self.plan = got[0][0]
                self.best = got[1]
                progress = True
            # 3. fewer decisions
            self.table = dict(self.best.get('made', self.table))
            if self.ddmin():
                progress = True
        return self.best

    def ddmin(self):
        changed = False
        n = 2
        keys = sorted(self.table)
        got = self.try_many([(self.plan, {})])
        if got is not None:
            self.table, self.best = {}, got[1]
            return bool(keys)
        while len(keys) >= 1 and not self.out_of_time():
            size = max(1, len(keys) // n)
            chunks = [keys[i:i + size] for i in range(0, len(keys), size)]
            cands = []
            for c in chunks:
                cs = set(c)
                cands.append((self.plan, {k: self.table[k] for k in keys if k not in cs}))
            got = self.try_many(cands)
            if got is not None:
                self.table, self.best = got[0][1], got[1]
                keys = sorted(self.table)
                n = max(2, n - 1)
                changed = True
            else:
                if size == 1:
                    break
                n = min(len(keys), n * 2)
        return changed


_jobs = {}


def spawn_job(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            data = json.dumps(fn(), default=str).encode()
            mv = memoryview(data)
            while mv:
                n = os.write(w, mv)
                mv = mv[n:]
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(0)
    os.close(w)
    return pid, r


def collect_job(job):
    pid, r = job
    buf = bytearray()
    while True:
        b = os.read(r, 1 << 20)
        if not b:
            break
        buf += b
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return json.loads(bytes(buf))
    except Exception:
        return None


# ---- the search --------------------------------------------------------------------------------------------------

class Agg:
    def __init__(self):
        self.runs = 0
        self.stats = {}
        self.inter = set()
        self.digests = set()
        self.virtual = 0
        self.steps = 0
        self.lines = 0
        self.switches = 0
        self.tasks = 0
        self.ends = {}
        self.odd = {}
        self.soft = {}
        self.states = set()
        self.max_virtual = 0

    def add(self, r):
        self.runs += 1
        for a, b in r.get('stats', {}).items():
            self.stats[a] = self.stats.get(a, 0) + b
        if 'inter' in r:
            self.inter.add(r['inter'])
            self.digests.add(r['digest'])
        self.virtual += r.get('virtual_ns', 0)
        self.max_virtual = max(self.max_virtual, r.get('virtual_ns', 0))
        self.steps += r.get('steps', 0)
        self.lines += r.get('lines', 0)
        self.switches += r.get('switches', 0)
        self.tasks += r.get('tasks', 0)
        self.ends[r['end'][0]] = self.ends.get(r['end'][0], 0) + 1
        if r['end'][0] not in ('ok', 'violation'):
            self.odd.setdefault(r['end'][0], []).append(r.get('seed'))
        for s in r.get('soft', []):
            self.odd.setdefault(str(s[0]) + ':' + str(s[1]), []).append(r.get('seed'))
        for s in r.get('soft', ()):
            self.soft[s[0] + ':' + s[1]] = self.soft.get(s[0] + ':' + s[1], 0) + 1
        for s in (r.get('extra') or {}).get('states', ()):
            self.states.add(s)


def search(scn, seeds, jobs, wall, pid, known=None):
    """seeds: list of (phase, seed). Returns (agg, first_bad or None, harness list)."""
    agg = Agg()
    bad = None
    harness = []
    start = real.time()
    r, w = os.pipe()
    pids = []
    # jobs take seeds round robin, phase by phase
    for j in range(jobs):
        mine = seeds[j::jobs]
        p = os.fork()
        if p == 0:
            os.close(r)
            signal.signal(signal.SIGTERM, lambda *a: os._exit(0))
            phase = None
            try:
                for ph, seed in mine:
                    if ph != phase:
                        scn.enter_phase(ph)
                        phase = ph
                    plan = scn.plan(seed, ph)
                    res = run_child(scn, plan, None, seed)
                    res['phase'] = ph
                    if res['end'][0] == 'violation':
                        res.pop('made', None)
                    line = (json.dumps(res, default=str) + '\n').encode()
                    # atomic framing: length prefix under PIPE_BUF pieces is not guaranteed, so use a lock file
                    send_line(w, line)
                    if real.time() - start > wall:
                        break
            except BaseException:
                send_line(w, (json.dumps({'end': ['harness', traceback.format_exc()]}) + '\n').encode())
            os._exit(0)
        pids.append(p)
    os.close(w)
    pend = {}
    buf = bytearray()
    stop = False
    while not stop:
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
        while True:
            if len(buf) < 8:
                break
            src = int.from_bytes(buf[0:4], 'little')
            n = int.from_bytes(buf[4:8], 'little')
            if len(buf) < 8 + n:
                break
            part = bytes(buf[8:8 + n])
            del buf[:8 + n]
            cur = pend.get(src, b'') + part
            while b'\n' in cur:
                line, cur = cur.split(b'\n', 1)
                res = json.loads(line)
                agg.add(res)
                k = res['end'][0]
                if k in ('harness', 'hang'):
                    harness.append(res)
                elif k == 'violation':
                    v = res['end'][1]
                    if v[0] == pid:
                        if known and known(v):
                            agg.stats['known finding hit'] = agg.stats.get('known finding hit', 0) + 1
                        elif bad is None or res['seed'] < bad['seed']:
                            bad = res
                            stop = True
                    else:
                        agg.soft[v[0] + ':' + v[1]] = agg.soft.get(v[0] + ':' + v[1], 0) + 1
            pend[src] = cur
        if len(harness) > 20:
            stop = True
    os.close(r)
    for p in pids:
        try:
            os.kill(p, signal.SIGTERM)
        except ProcessLookupError:
            pass
    for p in pids:
        try:
            os.waitpid(p, 0)
        except ChildProcessError:
            pass
    agg.wall = real.time() - start
    return agg, bad, harness


def send_line(w, line):
    """Frames of at most PIPE_BUF bytes are atomic."""
    me = os.getpid() & 0xffffffff
    for i in range(0, len(line), 4000):
        part = line[i:i + 4000]
        os.write(w, me.to_bytes(4, 'little') + len(part).to_bytes(4, 'little') + part)


# ---- replay ------------------------------------------------------------------------------------------------------

def write_replay(path, scn, plan, table, seed, phase, res, extra=None):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    d = {
        'property': res['end'][1][0], 'kind': res['end'][1][1], 'message': res['end'][1][2], 'scenario': scn.id,
        'seed': seed, 'phase': phase, 'plan': plan, 'decisions': table, 'digest': res['digest'],
        'virtual_us': res['virtual_ns'] // 1000,
    }
    if extra:
        d.update(extra)
    with open(path, 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


def replay(scn, path, keep_log=False):
    with open(path) as f:
        d = json.load(f)
    scn.enter_phase(d['phase'])
    return d, run_child(scn, d['plan'], d['decisions'], d['seed'], keep_log)


def stable_hash(s):
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=6).digest(), 'big')

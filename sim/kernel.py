"""Deterministic kernel: real threads, one running at a time, virtual time, every choice from one seed.

A *task* is an OS thread that only runs while it holds the baton.  It gives the baton up at
  - simulated blocking operations (locks, sleeps, sockets),
  - preemption points: LINE events (sys.monitoring) of the code under test, lock acquisitions.
Which runnable task continues, where a task is preempted and for how long, every latency and every fault is
a *decision* with a stable key.  A decision's value is a pure function of (seed, key) in random mode, or is looked
up in an explicit table in replay mode (default: benign).  So a seed, or a decision table, is one exact execution.
"""
import _thread
import contextvars
import heapq
import sys
import zlib
from hashlib import blake2b

_real_allocate = _thread.allocate_lock

US = 1000
MS = 1000 * US
SEC = 1000 * MS

REQ = contextvars.ContextVar('request', default=None)    # the request the io loop is handling

K = None  # the active kernel of this process (None: not simulating)


class SimAbort(BaseException):
    """Raised in the driver when the run must end (violation found, step limit...)."""


class HarnessError(Exception):
    pass


def _mix(x):
    x &= 0xFFFFFFFFFFFFFFFF
    x ^= x >> 33
    x = (x * 0xff51afd7ed558ccd) & 0xFFFFFFFFFFFFFFFF
    x ^= x >> 33
    x = (x * 0xc4ceb9fe1a85ec53) & 0xFFFFFFFFFFFFFFFF
    x ^= x >> 33
    return x


class Draw:
    """Tiny PRNG seeded by (seed, key)."""
    __slots__ = ('s',)

    def __init__(self, seed, key):
        self.s = _mix(seed * 0x9E3779B97F4A7C15 + zlib.crc32(key.encode()) + (zlib.adler32(key.encode()) << 32))

    def u64(self):
        self.s = (self.s + 0x9E3779B97F4A7C15) & 0xFFFFFFFFFFFFFFFF
        return _mix(self.s)

    def random(self):
        return (self.u64() >> 11) / 9007199254740992.0

    def below(self, n):
        return self.u64() % n

    def expo(self, mean):
        import math
        return -mean * math.log(1.0 - self.random())


class Decider:
    """mode 'seed': value=gen(Draw(seed,key)); 'table': explicit lookups, default otherwise."""

    def __init__(self, seed, table=None):
        self.seed = seed
        self.table = table
        self.made = {}  # non-default decisions actually made

    def decide(self, key, default, gen):
        if self.table is not None:
            v = self.table.get(key, default)
        else:
            v = gen(Draw(self.seed, key))
        if v != default:
            self.made[key] = v
        return v


class Task:
    __slots__ = ('k', 'id', 'name', 'group', 'lock', 'state', 'fn', 'exc', 'wake_seq', 'timed_out', 'tag',
                 'npre', 'nline', 'next_pre', 'nopre', 'nlat', 'done_waiters', 'result', 'waiting', 'nio', 'on_exit', 'ident',
                 'thread_obj', 'counters')

    def __init__(self, k, tid, name, group, fn):
        self.k = k
        self.id = tid
        self.name = name
        self.group = group
        self.fn = fn
        self.lock = _real_allocate()
        self.lock.acquire()
        self.state = 'new'
        self.exc = None
        self.wake_seq = 0
        self.timed_out = False
        self.tag = None
        self.npre = 0
        self.nline = 0
        self.next_pre = None
        self.nopre = 0
        self.nlat = 0
        self.nio = 0
        self.done_waiters = []
        self.result = None
        self.waiting = None
        self.on_exit = None
        self.ident = None
        self.thread_obj = None
        self.counters = {}

    def count(self, kind):
        n = self.counters.get(kind, 0) + 1
        self.counters[kind] = n
        return n

    def __repr__(self):
        return '<%s %s %s>' % (self.name, self.state, self.waiting or '')


class Kernel:
    def __init__(self, decider, cfg):
        """cfg: pre_mean (mean line events between preemptions; 0 = off), pre_delay (list of mean delays, ns),
        lock_pre (probability of preemption at a lock acquisition), lat (mean network latency, ns), max_steps,
        max_time, pick ('random'|'fifo')"""
        self.d = decider
        self.cfg = cfg
        self.now = 1_600_000_000 * SEC + cfg.get('epoch', 0)
        self.mono = 0
        self.clock_skew = 0  # added to wall clock only
        self.wall_quantum = cfg.get('wall_quantum', 0)  # ns; coarse wall clock
        self.tasks = []
        self.runq = []
        self.timers = []
        self.seq = 0
        self.current = None
        self.npick = 0
        self.steps = 0
        self.lines = 0
        self.pre_mean = cfg.get('pre_mean', 0)
        self.pre_delays = cfg.get('pre_delays', [50 * US])
        self.focus = cfg.get('focus')       # functions interrupted more than others: [modulus, value, probability, mean delay]
        self.hot = {}
        self.nhot = 0
        self.lock_pre = cfg.get('lock_pre', 0.0)
        self.lat = cfg.get('lat', 300 * US)
        self.max_steps = cfg.get('max_steps', 400000)
        self.blame = None           # (path prefix, property)
        self.max_lines = cfg.get('max_lines', 3_000_000)
        self.max_time = self.now + cfg.get('max_time', 4000 * SEC)
        self.driver_lock = _real_allocate()
        self.driver_lock.acquire()
        self.end = None  # (kind, detail)
        self.hash = blake2b(digest_size=12)
        self.log = [] if cfg.get('keep_log') else None
        self.stats = {}
        self.switches = 0
        self.inter = zlib.crc32(b'')
        self.pre_table = {}
        if decider.table is not None:
            for key, v in decider.table.items():
                if key.startswith('P:'):
                    name, idx = key[2:].rsplit(':', 1)
                    self.pre_table.setdefault(name, {})[int(idx)] = v
        self.names = {}
        self.nperf = 0
        self.cur_request = None     # request the io loop is handling right now
        self.idle_hooks = []        # called with a request tag when its worker finished
        self.soft = []              # violations of other properties seen in this run
        self.on_advance = None      # called when nothing can run before time goes on
        self.on_idle = None         # called when nothing can run any more; may schedule more work

    def fail(self, prop, kind, msg):
        """A property is violated: end the run (never raises into the code under test)."""
        if self.end is None:
            self.ev('VIOLATION', prop, kind)
            self.end = ('violation', (prop, kind, msg))
        t = self.current
        if t is not None and t.ident == _thread.get_ident():
            self._dispatch(t)

    def request_idle(self, tag):
        for h in self.idle_hooks:
            h(tag)

    # ---- logging -------------------------------------------------------------------------------------------
    def ev(self, kind, *detail):
        s = '%s|%s|%s' % (self.current.name if self.current else '-', kind, '|'.join(map(str, detail)))
        self.hash.update(s.encode('utf-8', 'replace'))
        if self.log is not None:
            self.log.append('%d %s' % ((self.now - 1_600_000_000 * SEC) // US, s))

    def stat(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    # ---- tasks ---------------------------------------------------------------------------------------------
    def spawn(self, name, fn, group='env', tag=None, daemon=False):
        n = self.names.get(name, 0) + 1
        self.names[name] = n
        if n > 1:
            name = '%s#%d' % (name, n)
        t = Task(self, len(self.tasks), name, group, fn)
        t.tag = tag
        self.tasks.append(t)
        t.state = 'run'
        self.runq.append(t)
        _thread.start_new_thread(self._boot, (t,))
        return t

    def _boot(self, t):
        t.lock.acquire()
        t.ident = _thread.get_ident()
        try:
            if t.state != 'dead':
                t.result = t.fn()
        except SimAbort:
            pass
        except HarnessError as e:
            import traceback
            if self.end is None:
                self.end = ('harness', traceback.format_exc())
        except BaseException as e:
            t.exc = e
            if t.group == 'env':
                import traceback
                if self.end is None:
                    if self.blame and any(f.filename.startswith(self.blame[0]) for f in traceback.extract_tb(e.__traceback__)):
                        # the code under test failed where nothing is allowed to
                        self.end = ('violation', (self.blame[1], 'unexpected error', 'task %s: %s: %s' % (t.name, type(e).__name__, e)))
                    else:
                        self.end = ('harness', 'task %s: %s' % (t.name, traceback.format_exc()))
        self._finish(t)

    def _finish(self, t):
        t.state = 'done'
        if t in self.runq:
            self.runq.remove(t)
        if t.on_exit is not None:
            try:
                t.on_exit(t)
            except BaseException:
                pass
        for w in t.done_waiters:
            self.wake(w)
        t.done_waiters = []
        self._dispatch(None)

    def kill_group(self, group):
        """Crash: tasks of the group never run again; their locks, frames and finalisers stay frozen."""
        n = 0
        for t in self.tasks:
            if t.group == group and t.state not in ('done', 'dead'):
                if t is self.current:
                    raise HarnessError('cannot kill the current task')
                if t in self.runq:
                    self.runq.remove(t)
                t.state = 'dead'
                t.wake_seq += 1
                n += 1
        return n

    # ---- scheduling ----------------------------------------------------------------------------------------
    def _next(self):
        """Choose the next task to run (or None: run over)."""
        while True:
            if self.end is not None:
                return None
            # fire due timers
            while self.timers and self.timers[0][0] <= self.now:
                _, _, cb = heapq.heappop(self.timers)
                cb()
                if self.end is not None:
                    return None
            q = self.runq
            if q:
                if len(q) == 1:
                    return q[0]
                self.npick += 1
                n = len(q)
                i = self.d.decide('pick:%d' % self.npick, 0, lambda r: r.below(n)) % n
                return q[i]
            if not self.timers:
                if self.on_idle is not None and self.on_idle():
                    continue
                if self.end is None:
                    self.end = ('idle', None)
                return None
            t = self.timers[0][0]
            if t > self.max_time:
                self.end = ('timeout', 'virtual time limit')
                return None
            if self.on_advance is not None and t > self.now:
                self.on_advance()
                if self.end is not None:
                    return None
            self.now = t

    def _dispatch(self, me):
        """Hand the baton to the next task. me: the calling task (None when finishing)."""
        self.steps += 1
        self.now += US
        if self.steps > self.max_steps and self.end is None:
            self.end = ('steps', 'step limit')
        nxt = self._next()
        if nxt is me and me is not None:
            return
        if nxt is None:
            # hand to the driver; this thread stays parked for ever
            self.current = None
            self.driver_lock.release()
        else:
            self.switches += 1
            self.current = nxt
            self.inter = zlib.crc32(nxt.name.encode(), self.inter)
            nxt.lock.release()
        if me is not None:
            me.lock.acquire()

    def yield_(self):
        """Let others run; stay runnable (goes to the back of the queue)."""
        t = self.current
        self.runq.remove(t)
        self.runq.append(t)
        self._dispatch(t)

    def _park(self, why, timeout):
        """Block the current task until wake() or timeout (ns). True if woken."""
        t = self.current
        if t is None:
            raise HarnessError('blocking outside a task: %s' % why)
        self.runq.remove(t)
        t.state = 'wait'
        t.waiting = why
        t.wake_seq += 1
        t.timed_out = False
        if timeout is not None:
            ws = t.wake_seq
            self.at(self.now + max(0, int(timeout)), lambda: self._timeout(t, ws))
        self._dispatch(t)
        t.waiting = None
        return not t.timed_out

    park = _park

    def _timeout(self, t, ws):
        if t.state == 'wait' and t.wake_seq == ws:
            t.timed_out = True
            t.state = 'run'
            self.runq.append(t)

    def wake(self, t):
        if t.state == 'wait':
            t.state = 'run'
            t.wake_seq += 1
            self.runq.append(t)

    def at(self, when, cb):
        self.seq += 1
        heapq.heappush(self.timers, (when, self.seq, cb))

    def sleep(self, ns):
        self._park('sleep', ns)

    def latency(self, what):
        """One network hop."""
        t = self.current
        n = t.count('lat')
        mean = self.lat
        if mean:
            v = self.d.decide('lat:%s:%d' % (t.name, n), 200 * US,
                              lambda r: int(20 * US + r.expo(mean)))
        else:
            v = 10 * US
        self._park('net ' + what, v)

    def join(self, t, timeout=None):
        if t.state in ('done',):
            return True
        t.done_waiters.append(self.current)
        return self._park('join ' + t.name, timeout)

    # ---- preemption ----------------------------------------------------------------------------------------
    def line(self, code, line):
        """sys.monitoring LINE callback."""
        t = self.current
        if t is None or t.ident != _thread.get_ident():
            return
        self.lines += 1
        if self.lines > self.max_lines:
            if self.end is None:
                self.end = ('steps', 'line limit in %s:%s' % (code.co_name, line))
            self._dispatch(t)
            return
        if not self.pre_mean:
            return
        t.nline += 1
        if t.next_pre is None:
            self._next_pre(t)
        if t.nline < t.next_pre:
            if self.focus is not None and self.d.table is None:
                self.focused(t, code)
            return
        idx = t.nline
        if self.d.table is not None:
            delay = self.pre_table[t.name][idx]
        else:
            r = Draw(self.d.seed, 'pre:%s:%d' % (t.name, idx))
            m = self.pre_delays[r.below(len(self.pre_delays))]
            delay = int(r.expo(m)) if m else 0
        self._next_pre(t)
        if t.nopre:
            return
        self.preempt(t, 'P:%s:%d' % (t.name, idx), delay, code)

    def focused(self, t, code):
        """Some functions, picked by the seed, are interrupted often and for long."""
        hot = self.hot.get(code)
        if hot is None:
            mod, val = self.focus[:2]
            hot = self.hot[code] = zlib.crc32(code.co_qualname.encode()) % mod == val
        if not hot or t.nopre or self.nhot >= 400:
            return
        idx = t.nline
        r = Draw(self.d.seed, 'hot:%s:%d' % (t.name, idx))
        if r.random() < self.focus[2]:
            self.nhot += 1
            self.stat('preemptions in picked functions')
            self.preempt(t, 'P:%s:%d' % (t.name, idx), int(r.expo(self.focus[3])), code)

    def _next_pre(self, t):
        if self.d.table is not None:
            later = [i for i in self.pre_table.get(t.name, ()) if i > t.nline or (t.next_pre is None and i >= t.nline)]
            t.next_pre = min(later) if later else 1 << 60
        else:
            t.npre += 1
            t.next_pre = t.nline + 1 + int(Draw(self.d.seed, 'gap:%s:%d' % (t.name, t.npre)).expo(self.pre_mean))

    def preempt(self, t, key, delay, code=None):
        self.d.made[key] = delay
        self.stat('preemptions')
        if len(self.runq) == 1 and not self.timers:
            return
        if delay == 0:
            self.yield_()
        else:
            self._park('preempted', delay)

    def lock_point(self):
        """Preemption point at a lock acquisition."""
        t = self.current
        if t.nopre or not self.lock_pre:
            return
        key = 'L:%s:%d' % (t.name, t.count('lk'))
        if self.d.table is not None:
            delay = self.d.table.get(key)
            if delay is not None:
                self.preempt(t, key, delay)
            return
        r = Draw(self.d.seed, key)
        if r.random() < self.lock_pre:
            m = self.pre_delays[r.below(len(self.pre_delays))]
            self.preempt(t, key, int(r.expo(m)) if m else 0)

    # ---- driving -------------------------------------------------------------------------------------------
    def run(self):
        """Run until the end. Called from the main thread (not a task)."""
        global K
        K = self
        first = self._next()
        if first is not None:
            self.current = first
            first.lock.release()
            self.driver_lock.acquire()
        return self.end

    def finish(self, kind, detail=None):
        """Called by a task: end the run here."""
        if self.end is None:
            self.end = (kind, detail)
        self._dispatch(self.current)

    # ---- clocks --------------------------------------------------------------------------------------------
    def wall(self):
        w = self.now + self.clock_skew
        if self.wall_quantum:
            w -= w % self.wall_quantum
        return w

    def perf(self):
        self.nperf += 1
        return (self.now - 1_600_000_000 * SEC) + self.nperf * 100

    def digest(self):
        return self.hash.hexdigest()


# ---- locks -----------------------------------------------------------------------------------------------------

def in_task():
    k = K
    return k is not None and k.current is not None and k.current.ident == _thread.get_ident()


class SimLock:
    """Drop-in for _thread.lock; blocks in the simulation when contended inside a task."""
    __slots__ = ('_l', '_w', 'owner', '__weakref__')

    def __init__(self):
        self._l = _real_allocate()
        self._w = []
        self.owner = None

    def acquire(self, blocking=True, timeout=-1):
        if not in_task():
            if timeout is not None and timeout >= 0 and blocking:
                return self._l.acquire(True, timeout)
            return self._l.acquire(blocking)
        k = K
        if blocking:
            k.lock_point()
        if self._l.acquire(False):
            self.owner = k.current
            return True
        if not blocking:
            return False
        deadline = None if timeout is None or timeout < 0 else k.now + int(timeout * SEC)
        me = k.current
        while True:
            if self.owner is not None and self.owner.state == 'dead':
                # a finaliser of a crashed process image
                raise RuntimeError('lock of a dead process')
            self._w.append(me)
            ok = k.park('lock', None if deadline is None else deadline - k.now)
            if me in self._w:
                self._w.remove(me)
            if self._l.acquire(False):
                self.owner = me
                return True
            if not ok:
                return False

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def release(self):
        self.owner = None
        self._l.release()
        if self._w and K is not None:
            # wake all: who gets it is a scheduling decision
            for t in self._w:
                K.wake(t)
            self._w = []

    def locked(self):
        return self._l.locked()

    def _at_fork_reinit(self):
        self._l = _real_allocate()
        self._w = []

    def force_reset(self):
        self._l = _real_allocate()
        self._w = []
        self.owner = None

    acquire_lock = acquire
    release_lock = release
    locked_lock = locked


class SimRLock:
    def __init__(self):
        self._block = SimLock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return 1
        rc = self._block.acquire(blocking, timeout)
        if rc:
            self._owner = me
            self._count = 1
        return rc

    __enter__ = acquire

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            self._block.release()

    def __exit__(self, t, v, tb):
        self.release()

    def _acquire_restore(self, state):
        self._block.acquire()
        self._count, self._owner = state

    def _release_save(self):
        if self._count == 0:
            raise RuntimeError("cannot release un-acquired lock")
        count, owner = self._count, self._owner
        self._count, self._owner = 0, None
        self._block.release()
        return (count, owner)

    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _recursion_count(self):
        return self._count if self._owner == _thread.get_ident() else 0

    def _at_fork_reinit(self):
        self._block._at_fork_reinit()
        self._owner = None
        self._count = 0

    def force_reset(self):
        self._block.force_reset()
        self._owner = None
        self._count = 0


def K_line(code, line):
    k = K
    if k is not None:
        k.line(code, line)


def K_jump(code, offset, dest):
    """A loop goes round (also within one line): the interpreter may switch threads there."""
    if dest < offset:
        k = K
        if k is not None:
            k.line(code, offset)


def K_called(code, offset, fn, arg0):
    """A call of something not written in Python has returned: threads may be switched in the middle of a line."""
    k = K
    if k is not None:
        k.line(code, offset)

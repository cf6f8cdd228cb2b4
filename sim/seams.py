"""Seams: everything nondeterministic the code under test touches is routed to the kernel."""
import _thread
import datetime as _dt
import os
import random
import sys
import threading
import time
import types

from . import kernel as kern
from .kernel import SEC, SimLock, SimRLock

real = types.SimpleNamespace(
    time=time.time, monotonic=time.monotonic, perf_counter=time.perf_counter, sleep=time.sleep,
    urandom=os.urandom, start=_thread.start_new_thread, Thread=threading.Thread, time_ns=time.time_ns)

_rnd = random.Random(0)


def reseed(seed):
    _rnd.seed(seed)
    random.seed(seed ^ 0x5bd1e995)
    np = sys.modules.get('numpy')
    if np is not None:
        np.random.seed(seed & 0x7fffffff)


def _time():
    k = kern.K
    return real.time() if k is None else k.wall() / SEC


def _time_ns():
    k = kern.K
    return real.time_ns() if k is None else k.wall()


def _monotonic():
    k = kern.K
    return real.monotonic() if k is None else (k.now - 1_500_000_000 * SEC) / SEC


def _monotonic_ns():
    k = kern.K
    return time.__dict__['_real_monotonic_ns']() if k is None else (k.now - 1_500_000_000 * SEC)


def _perf():
    k = kern.K
    return real.perf_counter() if k is None else k.perf() / SEC


def _perf_ns():
    k = kern.K
    return int(real.perf_counter() * 1e9) if k is None else k.perf()


def _sleep(s):
    k = kern.K
    if k is None or not kern.in_task():
        return real.sleep(s)
    k.sleep(int(s * SEC))


def _urandom(n):
    if kern.K is None:
        return real.urandom(n)
    return _rnd.randbytes(n)


_real_gmtime, _real_localtime, _real_strftime = time.gmtime, time.localtime, time.strftime


def _gmtime(s=None):
    return _real_gmtime(_time() if s is None else s)


def _localtime(s=None):
    return _real_gmtime(_time() if s is None else s)


class _DTMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, _RealDateTime)

    def __subclasscheck__(cls, c):
        return issubclass(c, _RealDateTime)


_RealDateTime = _dt.datetime
_RealDate = _dt.date


class SimDateTime(_RealDateTime, metaclass=_DTMeta):
    def __new__(cls, *a, **k):
        return _RealDateTime.__new__(_RealDateTime, *a, **k)

    @classmethod
    def now(cls, tz=None):
        return _RealDateTime.fromtimestamp(_time(), tz) if tz else _RealDateTime.utcfromtimestamp(_time())

    @classmethod
    def utcnow(cls):
        return _RealDateTime.utcfromtimestamp(_time())

    @classmethod
    def today(cls):
        return cls.now()


def _start_new_thread(function, args=(), kwargs=None):
    k = kern.K
    if k is None or not kern.in_task():
        return real.start(function, args, *([kwargs] if kwargs else []))
    cur = k.current
    owner = getattr(function, '__self__', None)

    def body():
        function(*args, **(kwargs or {}))
    t = k.spawn('thr-' + cur.group, body, group=cur.group, tag=cur.tag)

    def on_exit(task):
        lk = getattr(owner, '_tstate_lock', None)
        if lk is not None and lk.locked():
            lk.release()
    t.on_exit = on_exit
    return 1_000_000 + t.id


def _set_sentinel():
    return SimLock() if kern.in_task() else _thread._set_sentinel()


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    # threading
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = None
    threading._PyRLock = SimRLock
    threading._start_new_thread = _start_new_thread
    threading._set_sentinel = _set_sentinel
    # time
    time._real_monotonic_ns = time.monotonic_ns
    time.time = _time
    time.time_ns = _time_ns
    time.monotonic = _monotonic
    time.monotonic_ns = _monotonic_ns
    time.perf_counter = _perf
    time.perf_counter_ns = _perf_ns
    time.process_time = _perf
    time.sleep = _sleep
    time.gmtime = _gmtime
    time.localtime = _localtime
    _dt.datetime = SimDateTime
    # randomness
    os.urandom = _urandom
    random._urandom = _urandom
    import uuid

    def uuid1(node=None, clock_seq=None):
        return uuid.UUID(bytes=_urandom(16), version=1)
    uuid.uuid1 = uuid1
    uuid.getnode = lambda: 0x112233445566
    uuid._generate_time_safe = None
    # thread pool
    import concurrent.futures
    import concurrent.futures.thread
    from . import pool_executor
    concurrent.futures.ThreadPoolExecutor = pool_executor.SimThreadPoolExecutor
    concurrent.futures.thread.ThreadPoolExecutor = pool_executor.SimThreadPoolExecutor
    # queue.SimpleQueue is a C type that blocks for real
    import queue

    class SimpleQueue(queue.Queue):
        def __init__(self):
            queue.Queue.__init__(self)
    queue.SimpleQueue = SimpleQueue

"""concurrent.futures.ThreadPoolExecutor on simulated tasks: idle workers are reused, new ones up to max_workers."""
from concurrent.futures import _base

from . import kernel as kern


class SimThreadPoolExecutor(_base.Executor):
    def __init__(self, max_workers=None, thread_name_prefix='', initializer=None, initargs=()):
        if max_workers is None:
            max_workers = 12
        if max_workers <= 0:
            raise ValueError("max_workers must be greater than 0")
        self._max_workers = max_workers
        self._queue = []
        self._idle = []
        self._nworkers = 0
        self._shutdown = False
        self._initializer = initializer
        self._initargs = initargs

    def submit(self, fn, /, *args, **kwargs):
        if self._shutdown:
            raise RuntimeError('cannot schedule new futures after shutdown')
        f = _base.Future()
        k = kern.K
        cur = k.current
        self._queue.append((f, fn, args, kwargs, kern.REQ.get()))
        k.stat('work_items')
        if self._idle:
            t = self._idle.pop(0)
            k.wake(t)
        elif self._nworkers < self._max_workers:
            self._nworkers += 1
            k.spawn('w', self._worker, group=cur.group)
        return f

    def _worker(self):
        k = kern.K
        me = k.current
        if self._initializer:
            self._initializer(*self._initargs)
        while True:
            while not self._queue:
                if self._shutdown:
                    return
                self._idle.append(me)
                k.park('idle worker', None)
                if me in self._idle:
                    self._idle.remove(me)
            f, fn, args, kwargs, tag = self._queue.pop(0)
            if not f.set_running_or_notify_cancel():
                continue
            me.tag = tag
            try:
                result = fn(*args, **kwargs)
            except kern.SimAbort:
                raise
            except BaseException as exc:
                f.set_exception(exc)
                exc = None
            else:
                f.set_result(result)
                result = None
            f = fn = args = kwargs = None
            me.tag = None
            k.request_idle(tag)

    def shutdown(self, wait=True, *, cancel_futures=False):
        self._shutdown = True
        k = kern.K
        for t in self._idle:
            k.wake(t)
        self._idle = []

"""A whole proxy process in the simulator: real tornado application, asyncio loop on a simulated selector, thread pool,
scheduler, catalog, dbutils pools and mysql.connector over simulated sockets."""
import asyncio
import asyncio.events
import contextvars
import io
import logging
import os
import sys
import types
from asyncio import base_events

from . import boot
from . import kernel as kern
from .kernel import MS, SEC, US

REQ = kern.REQ


class SimSelector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        k = kern.K
        loop = self.loop
        if loop._ready or loop._woken:
            loop._woken = False
            if timeout == 0 or loop._ready:
                return []
        loop._task = k.current
        loop._waiting = True
        k.park('event loop', None if timeout is None else max(int(timeout * SEC), 1 * US))
        loop._waiting = False
        loop._woken = False
        return []

    def get_map(self):
        return {}

    def close(self):
        pass


class SimLoop(base_events.BaseEventLoop):
    def __init__(self):
        super().__init__()
        self._woken = False
        self._waiting = False
        self._task = None
        self._selector = SimSelector(self)
        self._clock_resolution = 1e-9

    def _process_events(self, events):
        pass

    def _write_to_self(self):
        self._woken = True
        if self._waiting:
            kern.K.wake(self._task)

    def add_reader(self, *a):
        pass

    add_writer = add_reader

    def remove_reader(self, *a):
        return False

    remove_writer = remove_reader


class HTTPStub:
    """The connection of one HTTP request: collects the answer."""

    def __init__(self, proxy, deliver):
        self.proxy = proxy
        self.deliver = deliver
        self.start = None
        self.headers = None
        self.body = bytearray()
        self.finished = 0
        self.twice = False
        self.closed_cb = None
        self.context = types.SimpleNamespace(remote_ip='10.0.0.9', protocol='http', address=('10.0.0.9', 1), address_family=2)
        self.no_keep_alive = False

    def set_close_callback(self, cb):
        self.closed_cb = cb

    def _done(self):
        f = asyncio.Future()
        f.set_result(None)
        return f

    def write_headers(self, start_line, headers, chunk=None):
        if self.start is not None:
            self.twice = True
        self.start = start_line
        self.headers = headers
        if chunk:
            self.body += chunk
        return self._done()

    def write(self, chunk):
        self.body += chunk
        return self._done()

    def finish(self):
        self.finished += 1
        self.deliver(self)

    def finish_message(self):
        pass


class Proxy:
    """One proxy process."""

    def __init__(self, k, net, name, config_text, on_up=None, monitored=True, files=None):
        self.k = k
        self.net = net
        self.name = name
        self.config_text = config_text
        self.image = None
        self.app = None
        self.loop = None
        self.up = False
        self.dead = False
        self.boot_error = None
        self.on_up = on_up
        self.pending = {}
        self.monitored = monitored
        self.files = files or {}

    def open(self, path, mode='r', *a, **kw):
        if os.path.basename(str(path)) == 'config.yaml':
            return io.StringIO(self.config_text)
        raise FileNotFoundError(2, 'No such file or directory: %r' % (path,))

    def start(self):
        self.task = self.k.spawn(self.name, self.main, group=self.name)
        return self.task

    def main(self):
        k = self.k
        loop = SimLoop()
        asyncio.set_event_loop(loop)
        try:
            self.image = boot.ProcessImage(self.name, open_hook=self.open)
            service = self.image.load('service')
            if self.monitored:
                boot.monitor([m for n, m in self.image.modules.items() if wanted(n)])
        except Exception as e:
            self.boot_error = e
            self.dead = True
            k.ev('boot failed', self.name, type(e).__name__)
            if self.on_up:
                self.on_up(self)
            return
        import tornado.web
        self.app = tornado.web.Application(handlers=service.HANDLERS)
        self.loop = loop
        self.up = True
        k.ev('up', self.name)
        if self.on_up:
            self.on_up(self)
        loop.run_forever()

    # called from env tasks (the HTTP server side of a request)
    def submit(self, tag, method, path, body, headers, deliver):
        import tornado.httputil as hu
        stub = HTTPStub(self, deliver)
        self.pending[tag] = stub

        def handle():
            sl = hu.RequestStartLine(method, path, 'HTTP/1.1')
            h = hu.HTTPHeaders(headers)
            d = self.app.start_request(None, stub)
            d.headers_received(sl, h)
            if body:
                d.data_received(body)
            d.finish()
        ctx = contextvars.Context()
        ctx.run(REQ.set, tag)
        self.loop.call_soon_threadsafe(handle, context=ctx)
        return stub

    def crash(self):
        """Runs in an env task or a timer, never in a task of this process."""
        k = self.k
        self.dead = True
        self.up = False
        k.kill_group(self.name)
        self.net.crash_group(self.name)
        release_shared_locks(k)


NOT_MONITORED = ('scheduler.crypto', 'scheduler.compile', 'scheduler.lex_module')


def wanted(n):
    return not any(n == x or n.startswith(x + '.') for x in NOT_MONITORED)


def release_shared_locks(k):
    """Locks of modules shared between simulated processes that a killed task held."""
    for name in list(sys.modules):
        if name.split('.')[0] in ('sql_parsing', 'mysql', 'tornado', 'logging', 'threading', 'phe', 'gmssl', 'mo_dots', 'mo_future'):
            m = sys.modules[name]
            for v in list(getattr(m, '__dict__', {}).values()):
                if isinstance(v, kern.SimLock):
                    if v.owner is not None and v.owner.state == 'dead':
                        v.force_reset()
                elif isinstance(v, kern.SimRLock):
                    if v._block.owner is not None and v._block.owner.state == 'dead':
                        v.force_reset()


# ---- stand-ins for what the image lacks or must not touch -----------------------------------------------------------
class NullHandler(logging.Handler):
    def __init__(self, *a, **k):
        logging.Handler.__init__(self)

    def emit(self, r):
        pass


def infer(col):
    """What pandas makes of a column of strings."""
    def blank(s):
        return s in ('', 'NA', 'NaN', 'nan', 'null', 'NULL', 'N/A', 'n/a', 'None', '<NA>', '#N/A')
    vals = [None if blank(s) else s for s in col]
    import re
    some = [v for v in vals if v is not None]
    nan = float('nan')
    if not some:
        return 'float', [nan] * len(vals)
    if all(re.fullmatch(r'\s*[-+]?\d+\s*', v) for v in some):
        if len(some) == len(vals):
            return 'int', [int(v) for v in vals]
        return 'float', [nan if v is None else float(v) for v in vals]
    if all(re.fullmatch(r'\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*', v) for v in some):
        return 'float', [nan if v is None else float(v) for v in vals]
    if all(v in ('True', 'False', 'TRUE', 'FALSE', 'true', 'false') for v in some) and len(some) == len(vals):
        return 'bool', [v.lower() == 'true' for v in vals]
    return 'obj', [nan if v is None else v for v in vals]


class PandasStub(types.ModuleType):
    """pandas.read_csv(path, chunksize=, header=None[, dtype=str, keep_default_na=False]) on simulated files."""

    def __init__(self):
        types.ModuleType.__init__(self, 'pandas')
        self.files = {}
        self.fault = {}

    def read_csv(self, path, chunksize=None, header='infer', dtype=None, keep_default_na=True, na_filter=True, **kw):
        import csv
        import numpy as np
        path = str(path)
        if path not in self.files:
            raise FileNotFoundError(2, 'No such file or directory: %r' % path)
        rows = list(csv.reader(io.StringIO(self.files[path])))
        fail = self.fault.get(path)
        if header is not None:
            rows = rows[1:]

        def chunks():
            k = kern.K
            size = min(chunksize or len(rows) or 1, self.chunk or (1 << 30))
            for i in range(0, len(rows), size):
                if kern.in_task():
                    k.sleep(200 * US)
                if fail is not None and i >= fail:
                    k.stat('fault read error')
                    raise OSError(5, 'Input/output error')
                part = rows[i:i + size]
                width = len(part[0])
                for r in part:
                    if len(r) > width:
                        raise ValueError('Error tokenizing data')
                cols = [[r[j] if j < len(r) else '' for r in part] for j in range(width)]
                if dtype is str or dtype == 'str' or dtype is object:
                    conv = [('obj', c if not (keep_default_na and na_filter) else
                             [float('nan') if x == '' else x for x in c]) for c in cols]
                else:
                    conv = [infer(c) for c in cols]
                kinds = {x for x, _ in conv}
                if kinds == {'int'}:
                    a = np.array([c for _, c in conv], dtype='int64').T
                elif kinds <= {'int', 'float'}:
                    a = np.array([c for _, c in conv], dtype='float64').T
                else:
                    a = np.empty((len(part), width), dtype=object)
                    for j, (_, c) in enumerate(conv):
                        for n, v in enumerate(c):
                            a[n, j] = v
                yield types.SimpleNamespace(values=a, shape=a.shape, columns=list(range(width)))
        if chunksize is None:
            class One:
                pass
            got = list(chunks())
            import numpy as np
            return types.SimpleNamespace(values=np.concatenate([g.values for g in got]) if got else np.empty((0, 0)))
        return chunks()

    chunk = None


pandas_stub = PandasStub()


def install():
    logging.FileHandler = NullHandler
    logging.disable(logging.CRITICAL)
    sys.modules['pandas'] = pandas_stub
    from . import mysqlsim
    mysqlsim.install()


def prepare():
    """Import everything the proxy shares between simulated processes, single-threaded."""
    import numpy            # noqa
    import yaml             # noqa
    import mysql.connector  # noqa
    import tornado.web, tornado.ioloop, tornado.gen, tornado.concurrent, tornado.httputil   # noqa
    import tornado.platform.asyncio  # noqa
    import phe, gmssl.sm4, cryptography.fernet  # noqa
    import sqlite3, csv, uuid  # noqa
    if boot.REPO not in sys.path:
        sys.path.insert(0, boot.REPO)
    import sql_parsing      # noqa

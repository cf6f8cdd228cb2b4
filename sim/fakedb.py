"""A fake DB-API driver and server for the pool library: every raw call is a simulated network exchange."""
from . import kernel as kern
from .kernel import US, MS


class Error(Exception):
    pass


class DatabaseError(Error):
    pass


class InterfaceError(Error):
    pass


class OperationalError(DatabaseError):
    pass


class InternalError(DatabaseError):
    pass


class ProgrammingError(DatabaseError):
    pass


class Server:
    """Server state plus the fault source."""

    def __init__(self, k, cfg, oracle):
        self.k = k
        self.cfg = cfg
        self.o = oracle
        self.up = True
        self.faults_on = True
        self.conns = []
        self.committed = []
        self.opens = 0
        self.nerr = 0
        self.nfatal = 0         # errors on which the library may replace a connection
        self.kill_seq = 0       # bumped whenever the server drops connections on its own

    # one decision per (task, nth raw call)
    def fault(self, op):
        k = self.k
        t = k.current
        n = t.count('raw')
        if not self.faults_on:
            return None
        p = self.cfg['pfault'].get(op, 0)
        if not p:
            return None
        kinds = FAULTS[op]
        key = 'F:%s:%d:%s' % (t.name, n, op)

        def gen(r):
            if r.random() >= p:
                return ''
            return kinds[r.below(len(kinds))]
        f = k.d.decide(key, '', gen)
        if f not in kinds:
            return None
        k.stat('fault %s %s' % (op, f))
        k.ev('fault', op, f)
        return f

    def kill(self, pred=lambda c: True):
        n = 0
        self.kill_seq += 1
        for c in self.conns:
            if c.alive and pred(c):
                c.die()
                n += 1
        return n

    def outage(self, length):
        self.up = False
        self.kill()
        self.k.stat('fault outage')
        self.k.at(self.k.now + length, self._heal)

    def _heal(self):
        self.up = True
        self.kill_seq += 1


FAULTS = {
    'connect': ['refuse', 'setup'],
    'execute': ['lost_before', 'lost_after', 'sqlerr', 'operr'],
    'cursor': ['lost', 'curerr'],
    'commit': ['lost_before', 'lost_after'],
    'rollback': ['lost'],
    'ping': ['lost'],
    'begin': ['lost'],
    'close': ['err'],
    'curclose': ['err'],
}


class Raw:
    """A raw DB-API connection."""

    def __init__(self, srv, mod):
        self.srv = srv
        self.mod = mod
        srv.opens += 1
        self.sid = srv.opens
        self.alive = True       # the server still has it
        self.closed = False     # the client closed it
        self.pending = []       # (statement id, handle)
        self.begun_by = None
        self.log = []
        self.users = 0
        self.uses = 0
        self.borrowed = False   # a borrower statement ran on it
        self.fault_setup = None
        self.dead_since = None

    def __repr__(self):
        return 'raw%d' % self.sid

    def die(self):
        if self.alive:
            self.alive = False
            self.pending = []
            self.begun_by = None
            self.dead_since = self.srv.o.tick()

    def _enter(self, op):
        o = self.srv.o
        if self.users and self.mod.threadsafety < 2:
            o.bad('C14', 'concurrent use', '%r used by two threads at once (%s)' % (self, op))
        self.users += 1

    def _leave(self):
        self.users -= 1

    def _err(self, cls, msg):
        self.srv.nerr += 1
        if not issubclass(cls, ProgrammingError):
            self.srv.nfatal += 1
        e = cls('%s on %r #%d' % (msg, self, self.srv.nerr))
        self.srv.o.raised(e)
        return e

    def _dead(self, op):
        if self.closed:
            raise self._err(InterfaceError, 'connection closed')
        if not self.alive:
            raise self._err(OperationalError, 'server gone during ' + op)

    def close(self):
        if self.closed:
            return
        self.closed = True
        self.srv.o.raw_close(self)
        dead = not self.alive
        self.die()
        if self.srv.fault('close'):     # it is closed all the same: only the farewell failed
            raise (OperationalError if dead else InternalError)('close failed')

    def _ping(self):
        self._enter('ping')
        try:
            self.srv.k.latency('ping')
            if self.srv.fault('ping') == 'lost':
                self.srv.o.hit()
                self.die()
            self._dead('ping')
        finally:
            self._leave()

    def begin_(self):
        self._enter('begin')
        try:
            self.srv.k.latency('begin')
            if self.srv.fault('begin') == 'lost':
                self.srv.o.hit()
                self.die()
            self._dead('begin')
            self.begun_by = self.srv.o.handle()
        finally:
            self._leave()

    def commit(self):
        o = self.srv.o
        self._enter('commit')
        try:
            self.srv.k.latency('commit')
            f = self.srv.fault('commit')
            if f:
                o.hit()
            if f == 'lost_before':
                self.die()
            self._dead('commit')
            o.raw_commit(self)
            done = self.pending
            self.pending = []
            self.begun_by = None
            for sid, h in done:
                o.commit_one(self, sid, h)
            if f == 'lost_after':
                self.die()
                self._dead('commit')
        finally:
            self._leave()

    def rollback(self):
        self._enter('rollback')
        try:
            self.srv.k.latency('rollback')
            if self.srv.fault('rollback') == 'lost':
                self.srv.o.hit()
                self.die()
            self._dead('rollback')
            self.pending = []
            self.begun_by = None
        finally:
            self._leave()

    def cancel_(self):
        self._dead('cancel')
        self.pending = []
        self.begun_by = None

    def cursor(self, *a, **kw):
        f = self.srv.fault('cursor')
        if f:
            self.srv.o.hit()
            self.srv.o.prep_failed()
        if f == 'lost':
            self.die()
        if f == 'curerr':
            raise self._err(InterfaceError, 'no cursor')
        if self.srv.cfg['cursor_checks']:
            self._dead('cursor')
        elif self.closed:
            raise self._err(InterfaceError, 'connection closed')
        return RawCursor(self)


class PingPlain(Raw):
    def ping(self):
        self._ping()


class PingFlag(Raw):
    def ping(self, reconnect=False):
        if reconnect:
            self.srv.o.bad('C18', 'driver reconnect', 'ping asked the driver to reconnect')
        self._ping()
        return True


def with_begin(base):
    class B(base):
        def begin(self, *a, **kw):
            self.begin_()

        def cancel(self):
            self.cancel_()
    B.__module__ = __name__
    return B


CLASSES = {
    ('none', False): Raw, ('plain', False): PingPlain, ('flag', False): PingFlag,
    ('none', True): with_begin(Raw), ('plain', True): with_begin(PingPlain), ('flag', True): with_begin(PingFlag),
}


class RawCursor:
    def __init__(self, con):
        self.con = con
        self.result = None
        self.closed = False
        self.sizes = {}

    def execute(self, sql, *args):
        c = self.con
        srv = c.srv
        o = srv.o
        if self.closed:
            raise c._err(ProgrammingError, 'cursor closed')
        c._enter('execute')
        try:
            srv.k.latency('execute')
            if sql.startswith('SET '):
                c._dead('execute')
                if c.fault_setup:
                    o.hit()
                    if c.fault_setup == 2:
                        c.die()
                        c._dead('setup')
                    raise c._err(ProgrammingError, 'bad setup')
                c.log.append(sql)
                return
            f = srv.fault('execute')
            if f:
                o.hit()
            if f == 'lost_before':
                c.die()
            c._dead('execute')
            if f == 'sqlerr' or sql.startswith('X'):
                o.hit(sql_error=True)
                raise c._err(ProgrammingError, 'bad statement')
            if f == 'operr':
                raise c._err(OperationalError, 'try again')
            sizes, self.sizes = self.sizes, {}
            o.raw_statement(c, sql, sizes)
            c.log.append(sql)
            c.uses += 1
            if sql.startswith('W'):
                c.pending.append((sql, o.handle()))
            self.result = sql + '@%d' % c.sid
            if f == 'lost_after':
                c.die()
                c._dead('execute')
        finally:
            c._leave()
        srv.k.latency('reply')

    def setinputsizes(self, sizes):
        self.sizes['in'] = sizes

    def setoutputsize(self, size, column=None):
        self.sizes[column] = size

    def callproc(self, sql, args=()):
        return self.execute(sql)

    def executemany(self, sql, seq):
        for _ in seq:
            pass
        return self.execute(sql)

    def fetchone(self):
        return self.result

    def close(self):
        if self.closed:
            return
        self.closed = True
        if self.result and self.con.srv.fault('curclose'):
            raise InternalError('cannot close the cursor')


class Module:
    """Stands for a DB-API 2 module."""
    Error = Error
    InterfaceError = InterfaceError
    DatabaseError = DatabaseError
    OperationalError = OperationalError
    InternalError = InternalError
    ProgrammingError = ProgrammingError
    apilevel = '2.0'

    def __init__(self, srv, threadsafety, cls):
        self.srv = srv
        self.threadsafety = threadsafety
        self.cls = cls

    def _err(self, msg):
        self.srv.nerr += 1
        self.srv.nfatal += 1
        e = OperationalError('%s #%d' % (msg, self.srv.nerr))
        self.srv.o.raised(e)
        return e        # (raised by the caller: a frame that holds its own exception is a cycle)

    def connect(self, *args, **kw):
        srv = self.srv
        o = srv.o
        o.connecting()
        srv.k.latency('connect')
        f = srv.fault('connect')
        if f:
            o.connect_failed()
        if not srv.up:
            o.connect_failed()
            raise self._err('server down')
        if f == 'refuse':
            raise self._err('too many connections')
        c = self.cls(srv, self)
        if f == 'setup':
            if srv.cfg['setsession']:
                c.fault_setup = 1 + (c.sid & 1)
        srv.conns.append(c)
        o.raw_open(c)
        return c


# the library looks the driver up through the connection's module
threadsafety = 2
apilevel = '2.0'


def connect(*a, **kw):
    raise InterfaceError('not a real driver')

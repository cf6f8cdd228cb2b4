"""Simulated MySQL servers behind simulated TCP: wire protocol, sessions, transactions, locks, crashes, faults.

Everything runs in kernel callbacks (no threads).  A client's sendall() schedules the delivery of the packet; the server
executes it (or waits for locks) and schedules the delivery of the answer.  Faults are attached to packets when they are sent
and have keys F:<request tag>:<n> (n-th packet of that request), so they survive minimisation of plan and schedule.
"""
import errno as _errno
import hashlib
import socket as _socket
import struct
from decimal import Decimal

from . import kernel as kern
from . import sqlengine as sq
from .kernel import MS, SEC, US

LOCK_WAIT = 50 * SEC
WRITES = ('insert', 'update', 'delete')
DDL = ('create', 'drop', 'alter', 'truncate')
SQL_MODE = 'ONLY_FULL_GROUP_BY,STRICT_TRANS_TABLES,NO_ZERO_IN_DATE,NO_ZERO_DATE,ERROR_FOR_DIVISION_BY_ZERO,NO_ENGINE_SUBSTITUTION'


def lenenc(n):
    if n < 251:
        return bytes([n])
    if n < 1 << 16:
        return b'\xfc' + n.to_bytes(2, 'little')
    if n < 1 << 24:
        return b'\xfd' + n.to_bytes(3, 'little')
    return b'\xfe' + n.to_bytes(8, 'little')


def lenstr(b):
    return lenenc(len(b)) + b


def ok_packet(affected=0, status=0):
    return b'\x00' + lenenc(affected) + lenenc(0) + struct.pack('<HH', status, 0)


def err_packet(e):
    return b'\xff' + struct.pack('<H', e.errno) + b'#' + e.state.encode()[:5].ljust(5, b'0') + e.msg.encode('utf-8', 'replace')


def eof_packet(status=0):
    return b'\xfe' + struct.pack('<HH', 0, status)


def coltype(values):
    for v in values:
        if v is None:
            continue
        if isinstance(v, bool) or isinstance(v, int):
            return 8
        if isinstance(v, Decimal):
            return 246
        if isinstance(v, float):
            return 5
        if isinstance(v, sq.Date):
            return 10
        if isinstance(v, sq.DateTime):
            return 12
        return 253
    return 253


def coldef(name, typ):
    n = name.encode('utf-8')
    cs = 45 if typ == 253 else 63
    return (lenstr(b'def') + lenstr(b'') + lenstr(b'') + lenstr(b'') + lenstr(n) + lenstr(n) +
            b'\x0c' + struct.pack('<HIBHB', cs, 1024, typ, 0, 0) + b'\0\0')


def native_password(pw, salt):
    if not pw:
        return b''
    h1 = hashlib.sha1(pw.encode()).digest()
    h2 = hashlib.sha1(h1).digest()
    h3 = hashlib.sha1(salt + h2).digest()
    return bytes(a ^ b for a, b in zip(h1, h3))


WEAK = ('read-committed', 'read-uncommitted')       # isolation levels without one snapshot for a transaction


class Blocked(Exception):
    pass


class Session:
    def __init__(self, server, conn, sid):
        self.server = server
        self.conn = conn
        self.id = sid
        self.user = None
        self.password = None
        self.db = None
        self.phase = 'auth'
        self.salt = bytes((33 + (sid * 7 + i * 13) % 90) for i in range(20))
        self.autocommit = True
        self.sql_mode = SQL_MODE
        self.strict = True
        self.level = self.next_level = None     # isolation level, None being repeatable read
        self.uservars = {}
        self.txn = None
        self.queue = []
        self.cur = None         # command being executed (waiting for a lock)
        self.closed = False
        self.seqno = 0
        self.opened_by = None
        self.last_tag = None
        self.waits = None
        self.born = None
        self.ncmd = 0


class Txn:
    def __init__(self, tag, s):
        self.tag = tag
        self.level = s.next_level or s.level
        s.next_level = None
        self.snap = None
        self.writes = {}
        self.xlocks = set()
        self.mdl = set()
        self.stmts = []         # (tag, sql) of writing statements


class Server:
    def __init__(self, net, name, host, port, max_conn=400):
        self.net = net
        self.k = net.k
        self.name = name
        self.host, self.port = host, port
        self.users = {}         # user -> [password, set(dbs)]
        self.state = {}         # db -> {table: Table}; replaced, never changed in place
        self.sessions = {}
        self.nsession = 0
        self.up = True
        self.frozen = 0         # until then nothing is answered
        self.max_conn = max_conn
        self.xlock = {}         # (db, table) -> session
        self.mdl = {}           # (db, table) -> set of sessions
        self.ddl_wait = []      # (session, key) waiting for exclusive
        self.waiting = []
        self.commits = []       # (time, tag, session id, db.table list)
        self.peak = 0
        self.total = 0
        net.servers[(host, port)] = self

    # ---- administration (direct, not through a connection) -------------------------------------------------------
    def add_db(self, db):
        self.state = {**self.state, db: {}}

    def add_user(self, user, pw, dbs):
        self.users[user] = [pw, set(dbs)]

    def admin(self, db, sql):
        new, res = sq.execute(self.state[db], sql)
        self.state = {**self.state, db: new}
        return res

    # ---- sessions ------------------------------------------------------------------------------------------------
    def accept(self, conn):
        self.nsession += 1
        self.total += 1
        s = Session(self, conn, self.nsession)
        s.born = self.k.now
        conn.session = s
        s.opened_by = conn.tag
        if len(self.sessions) >= self.max_conn or conn.refuse1040:
            conn.refuse1040 = False
            self.reply(s, [err_packet(sq.SQLError(1040, 'Too many connections', '08004'))])
            self.k.stat('fault 1040 too many connections')
            conn.server_close()
            return
        self.sessions[s.id] = s
        self.peak = max(self.peak, len(self.sessions))
        caps = 0x0007F7FF & ~(1 << 11) & ~(1 << 5) | (1 << 19) | (1 << 15) | (1 << 9)
        caps &= ~0x1000000
        body = (b'\x0a' + b'5.7.30-sim\0' + struct.pack('<I', s.id) + s.salt[:8] + b'\0' +
                struct.pack('<H', caps & 0xffff) + bytes([45]) + struct.pack('<H', 2) +
                struct.pack('<H', (caps >> 16) & 0xffff) + bytes([21]) + b'\0' * 10 + s.salt[8:] + b'\0' +
                b'mysql_native_password\0')
        s.seqno = 0
        self.reply(s, [body])

    def end_session(self, s):
        if s.closed:
            return
        s.closed = True
        s.queue = []
        s.cur = None
        self.sessions.pop(s.id, None)
        if s in self.waiting:
            self.waiting.remove(s)
        self.ddl_wait = [x for x in self.ddl_wait if x[0] is not s]
        self.rollback(s)
        self.wakeup()

    def reply(self, s, payloads, cut=None):
        out = bytearray()
        for p in payloads:
            out += len(p).to_bytes(3, 'little') + bytes([s.seqno & 0xff]) + p
            s.seqno += 1
        if cut is not None:
            out = out[:int(len(out) * cut)]
        s.conn.to_client(bytes(out))

    # ---- incoming ------------------------------------------------------------------------------------------------
    def on_packet(self, s, payload, seq, tag, fault):
        if s.closed:
            return
        s.queue.append((payload, seq, tag, fault))
        self.pump(s)

    def pump(self, s):
        while s.cur is None and s.queue and not s.closed:
            payload, seq, tag, fault = s.queue.pop(0)
            s.cur = (payload, seq, tag, fault, self.k.now)
            if self.frozen > self.k.now and payload[:1] != b'\x01':
                self.k.stat('fault command to a server that does not answer')
                s.waits = 'stall'
                self.k.at(self.frozen + 1, self.net.guard(lambda s=s, c=s.cur: self.unstall(s, c)))
                return
            if fault and fault[0] == 'stall':
                self.k.stat('fault stall')
                s.waits = 'stall'
                self.k.at(self.k.now + int(fault[1]), self.net.guard(lambda s=s, c=s.cur: self.unstall(s, c)))
                return
            self.run(s)

    def unstall(self, s, c):
        if s.cur is c and not s.closed:
            s.waits = None
            self.run(s)
            self.pump(s)

    def run(self, s):
        """Execute s.cur, or leave it there waiting."""
        payload, seq, tag, fault, t0 = s.cur
        k = self.k
        if fault and fault[0] == 'restart0':
            s.cur = None
            self.restart(int(fault[1]))
            return
        try:
            resp = self.command(s, payload, tag, fault)
        except Blocked:
            if s not in self.waiting:
                self.waiting.append(s)
                k.stat('lock waits')
                cur = s.cur
                k.at(t0 + LOCK_WAIT, self.net.guard(lambda: self.lock_timeout(s, cur)))
            return
        except sq.SQLError as e:
            resp = [err_packet(e)]
            k.ev('db-err', self.name, s.id, tag, e.errno)
            self.net.refused.setdefault(tag, []).append(e.errno)
        if s in self.waiting:
            self.waiting.remove(s)
        if s.closed:
            return
        s.cur = None
        if resp is None:        # COM_QUIT
            s.conn.server_close()
            self.end_session(s)
            return
        s.seqno = seq + 1
        f = fault[0] if fault else None
        if f == 'rst1':
            k.stat('fault reset after execution')
            s.conn.reset()
            self.end_session(s)
        elif f == 'rst2':
            k.stat('fault torn answer')
            self.reply(s, resp, fault[1])
            s.conn.reset(after=True)
            self.end_session(s)
        elif f == 'restart1':
            self.restart(int(fault[1]))
        else:
            self.reply(s, resp)

    def lock_timeout(self, s, cur):
        if s.cur is cur and s in self.waiting and not s.closed:
            self.waiting.remove(s)
            self.ddl_wait = [x for x in self.ddl_wait if x[0] is not s]
            s.cur = None
            s.seqno = cur[1] + 1
            self.k.stat('lock wait timeouts')
            self.net.refused.setdefault(cur[2], []).append(1205)
            self.reply(s, [err_packet(sq.SQLError(1205, 'Lock wait timeout exceeded; try restarting transaction'))])
            self.wakeup()
            self.pump(s)

    def wakeup(self):
        for s in list(self.waiting):
            if s in self.waiting and s.cur is not None:
                self.run(s)
                self.pump(s)

    # ---- commands ------------------------------------------------------------------------------------------------
    def command(self, s, payload, tag, fault):
        k = self.k
        if s.phase == 'auth':
            return self.auth(s, payload)
        cmd = payload[0]
        s.ncmd += 1
        if cmd == 1:
            return None
        if cmd == 14:
            return [ok_packet(0, self.status(s))]
        if cmd == 2:
            db = payload[1:].decode()
            self.check_db(s, db)
            s.db = db
            return [ok_packet(0, self.status(s))]
        if cmd == 31:
            self.rollback(s)
            s.uservars = {}
            s.autocommit = True
            s.level = s.next_level = None
            s.sql_mode, s.strict = SQL_MODE, True
            return [ok_packet(0, self.status(s))]
        if cmd != 3:
            raise sq.SQLError(1047, 'Unknown command', '08S01')
        sql = payload[1:].decode('utf-8')
        f = fault if fault and fault[0] == 'err' else None
        if s.waits is None:
            self.net.on_statement(self, s, sql, tag)
            s.waits = 'seen'
        try:
            st = sq.parse(sql)
            if f:
                e = self.refuse(s, st, f[1])
                if e is not None:
                    k.stat('fault error %d' % e.errno)
                    raise e
            res = self.execute(s, st, sql, tag)
        except Blocked:
            raise
        except sq.SQLError as e:
            s.waits = None
            self.net.on_result(self, s, sql, tag, e)
            raise
        s.waits = None
        self.net.on_result(self, s, sql, tag, None)
        return res

    def refuse(self, s, st, code):
        """The refusal of this statement with this error, if it makes sense for the statement."""
        kind = st[0]
        if kind in ('rollback', 'nop', 'begin', 'isolation'):
            return None
        if kind == 'set' and 'autocommit' in repr(st):
            return None
        if kind == 'commit':
            if s.txn is None or not s.txn.writes:
                return None
            self.rollback(s)
            return sq.SQLError(1180, 'Got error 28 during COMMIT')
        w = kind in WRITES
        if code == 1213:
            if not w:
                code = 1317
            else:
                self.rollback(s)
                return sq.SQLError(1213, 'Deadlock found when trying to get lock; try restarting transaction', '40001')
        if code == 1205 and not w and kind not in DDL:
            code = 1317
        if code in (1114, 1290) and not w and kind not in DDL:
            code = 1142
        msg = {1205: 'Lock wait timeout exceeded; try restarting transaction', 1114: "The table is full",
               1290: 'The MySQL server is running with the --read-only option so it cannot execute this statement',
               1142: 'command denied to user', 1317: 'Query execution was interrupted', 1030: 'Got error 28 from storage engine',
               1021: 'Disk full', 3024: 'Query execution was interrupted, maximum statement execution time exceeded'}
        state = {1142: '42000', 1317: '70100'}.get(code, 'HY000')
        return sq.SQLError(code, msg.get(code, 'error'), state)

    def status(self, s):
        return (2 if s.autocommit else 0) | (1 if s.txn is not None else 0)

    def auth(self, s, p):
        flags = struct.unpack('<I', p[:4])[0]
        at = 32
        end = p.index(b'\0', at)
        user = p[at:end].decode()
        at = end + 1
        n = p[at]
        at += 1
        token = p[at:at + n]
        at += n
        db = None
        if flags & 8 and at < len(p):
            end = p.index(b'\0', at)
            db = p[at:end].decode() or None
        u = self.users.get(user)
        if u is None or native_password(u[0], s.salt) != bytes(token):
            e = sq.SQLError(1045, "Access denied for user '%s'@'sim' (using password: YES)" % user, '28000')
            self.reply_close(s, e)
            raise Blocked_closed()
        s.user = user
        s.password = u[0]
        try:
            if db is not None:
                self.check_db(s, db)
                s.db = db
        except sq.SQLError as e:
            self.reply_close(s, e)
            raise Blocked_closed()
        s.phase = 'cmd'
        self.k.stat('db sessions opened')
        return [ok_packet(0, 2)]

    def reply_close(self, s, e):
        s.seqno = s.cur[1] + 1
        self.reply(s, [err_packet(e)])
        s.conn.server_close()
        self.end_session(s)

    def check_db(self, s, db):
        if db not in self.users[s.user][1]:
            raise sq.SQLError(1044, "Access denied for user '%s'@'%%' to database '%s'" % (s.user, db), '42000')
        if db not in self.state:
            raise sq.SQLError(1049, "Unknown database '%s'" % db, '42000')

    # ---- execution -----------------------------------------------------------------------------------------------
    def execute(self, s, st, sql, tag):
        kind = st[0]
        if kind in ('nop', 'show'):
            return [ok_packet(0, self.status(s))]
        if kind == 'begin':
            self.commit(s, tag)
            s.txn = Txn(tag, s)
            if st[1]:
                s.txn.snap = self.state
            return [ok_packet(0, self.status(s))]
        if kind == 'isolation':
            if st[1] == 'next' and s.txn is not None:
                raise sq.SQLError(1568, "Transaction characteristics can't be changed while a transaction is in progress", '25001')
            if st[1] == 'session':
                s.level = st[2]
            else:
                s.next_level = st[2]
            return [ok_packet(0, self.status(s))]
        if kind == 'commit':
            self.commit(s, tag)
            return [ok_packet(0, self.status(s))]
        if kind == 'rollback':
            self.rollback(s)
            self.wakeup_soon()
            return [ok_packet(0, self.status(s))]
        if kind == 'set':
            return self.do_set(s, st, tag)
        if kind in DDL:
            return self.ddl(s, st, tag, sql)
        if s.db is None:
            raise sq.SQLError(1046, 'No database selected', '3D000')
        if s.txn is None:
            s.txn = Txn(tag, s)
            fresh = True
        else:
            fresh = False
        t = s.txn
        try:
            return self.dml(s, t, st, tag, sql)
        except Blocked:
            raise
        except BaseException:
            if fresh and not t.mdl and not t.writes:
                s.txn = None
            raise
        finally:
            if s.autocommit and s.txn is t and s.cur is not None:
                import sys
                if not isinstance(sys.exc_info()[1], Blocked):
                    if sys.exc_info()[1] is None:
                        self.commit(s, tag)
                    else:
                        self.rollback(s)

    def dml(self, s, t, st, tag, sql):
        kind = st[0]
        names = sq.tables_of(st)
        db = s.db
        for n in names:
            self.need_mdl(s, (db, n))
        if t.level in WEAK:
            t.snap = None

        def read(n):
            w = t.writes.get((db, n))
            if w is None and t.level == 'read-uncommitted':
                w = self.dirty((db, n))
            if w is not None:
                return w
            if t.snap is None:
                t.snap = self.state
            tab = t.snap[db].get(n)
            if tab is None:
                if n in self.state[db]:
                    raise sq.SQLError(1412, 'Table definition has changed, please retry transaction')
                raise sq.SQLError(1146, "Table '%s.%s' doesn't exist" % (db, n), '42S02')
            now = self.state[db].get(n)
            if now is None or now.uid != tab.uid:
                raise sq.SQLError(1412, 'Table definition has changed, please retry transaction')
            return tab
        uv = dict(s.uservars)
        cx = sq.Ctx(read, uv, {'autocommit': int(s.autocommit), 'version_comment': 'sim', 'sql_mode': s.sql_mode}, strict=s.strict)
        if kind == 'select':
            for n in names:
                if n in self.state[db] or (db, n) in t.writes:
                    t.mdl.add((db, n))
                    self.mdl.setdefault((db, n), set()).add(s)
            cols, rows = sq.run_select(st, cx)
            s.uservars = uv
            if t.snap is None and not names and not t.writes and not t.mdl:
                s.txn = None        # nothing read: no transaction
            return self.resultset(s, cols, rows)
        if kind == 'do':
            for e in st[1]:
                sq.ev(e, None, cx)
            s.uservars = uv
            return [ok_packet(0, self.status(s))]
        name = st[1] if kind == 'insert' else st[1][1]
        key = (db, name)
        if name not in self.state[db]:
            raise sq.SQLError(1146, "Table '%s.%s' doesn't exist" % (db, name), '42S02')
        for n in names:
            if n in self.state[db]:
                t.mdl.add((db, n))
                self.mdl.setdefault((db, n), set()).add(s)
        owner = self.xlock.get(key)
        if owner is not None and owner is not s:
            self.deadlock(s, owner)
            s.waits = 'seen'
            s.want = key
            raise Blocked()
        self.xlock[key] = s
        t.xlocks.add(key)
        base = t.writes.get(key)
        if base is None:
            base = self.state[db][name]
        fn = {'insert': sq.run_insert, 'update': sq.run_update, 'delete': sq.run_delete}[kind]
        new, n = fn(base, st, cx)
        t.writes[key] = new
        t.stmts.append((tag, sql))
        s.uservars = uv
        return [ok_packet(n, self.status(s))]

    def dirty(self, key):
        o = self.xlock.get(key)
        return o.txn.writes.get(key) if o is not None and o.txn is not None else None

    def deadlock(self, s, owner):
        seen = {s}
        while owner is not None:
            if owner in seen:
                self.rollback(s)
                self.k.stat('deadlocks')
                raise sq.SQLError(1213, 'Deadlock found when trying to get lock; try restarting transaction', '40001')
            seen.add(owner)
            if owner not in self.waiting or not hasattr(owner, 'want'):
                return
            owner = self.xlock.get(owner.want)

    def need_mdl(self, s, key):
        if s in self.mdl.get(key, ()):
            return
        for o, kk in self.ddl_wait:
            if kk == key and o is not s:
                raise Blocked()

    def do_set(self, s, st, tag):
        # scalar subqueries in SET read tables inside the transaction
        names = sq.tables_of(st)
        fresh = s.txn is None
        if fresh:
            s.txn = Txn(tag, s)
        t = s.txn
        db = s.db
        try:
            for n in names:
                self.need_mdl(s, (db, n))
            if t.level in WEAK:
                t.snap = None

            def read(n):
                w = t.writes.get((db, n))
                if w is None and t.level == 'read-uncommitted':
                    w = self.dirty((db, n))
                if w is not None:
                    return w
                if t.snap is None:
                    t.snap = self.state
                tab = t.snap[db].get(n)
                if tab is None:
                    raise sq.SQLError(1146, "Table '%s.%s' doesn't exist" % (db, n), '42S02')
                now = self.state[db].get(n)
                if now is None or now.uid != tab.uid:
                    raise sq.SQLError(1412, 'Table definition has changed, please retry transaction')
                return tab
            uv = dict(s.uservars)
            cx = sq.Ctx(read, uv, {'autocommit': int(s.autocommit), 'sql_mode': s.sql_mode})
            for n in names:
                if n in self.state[db]:
                    t.mdl.add((db, n))
                    self.mdl.setdefault((db, n), set()).add(s)
            for target, e in st[1]:
                v = sq.ev(e, None, cx)
                if target.startswith('@') and not target.startswith('@@'):
                    uv[target[1:].lower()] = v
                else:
                    var = target.lower().split('.')[-1].lstrip('@')
                    if var == 'autocommit':
                        on = v in (1, '1') or (isinstance(v, str) and v.upper() == 'ON')
                        if on and not s.autocommit:
                            self.commit(s, tag)
                        s.autocommit = on
                    elif var == 'sql_mode':
                        s.sql_mode = str(v).upper()
                        s.strict = 'STRICT_TRANS_TABLES' in s.sql_mode or 'STRICT_ALL_TABLES' in s.sql_mode or s.sql_mode == 'TRADITIONAL'
                    elif var in ('transaction_isolation', 'tx_isolation'):
                        v = str(v).lower()
                        if v not in ('repeatable-read', 'serializable') + WEAK:
                            raise sq.SQLError(1231, "Variable '%s' can't be set to the value of '%s'" % (var, v), '42000')
                        s.level = v
            s.uservars = uv
        except Blocked:
            if fresh and not t.mdl:
                s.txn = None
            raise
        except BaseException:
            if fresh and t.snap is None:
                s.txn = None
            raise
        if s.txn is t and fresh and t.snap is None and not t.mdl:
            s.txn = None
        if s.autocommit and s.txn is not None:
            self.commit(s, tag)
        return [ok_packet(0, self.status(s))]

    def ddl(self, s, st, tag, sql):
        if s.db is None:
            raise sq.SQLError(1046, 'No database selected', '3D000')
        self.commit(s, tag)
        db = s.db
        if st[0] == 'create':
            keys = [(db, st[1])]
        elif st[0] == 'drop':
            keys = [(db, n) for n in st[1]]
        elif st[0] == 'truncate':
            keys = [(db, st[1])]
        else:
            raise sq.SQLError(1064, 'ALTER not supported by the simulated server', '42000')
        if st[0] in ('drop', 'truncate'):
            for key in keys:
                if self.mdl.get(key, set()) - {s}:
                    if (s, key) not in self.ddl_wait:
                        self.ddl_wait.append((s, key))
                    s.waits = 'seen'
                    raise Blocked()
        self.ddl_wait = [x for x in self.ddl_wait if x[0] is not s]
        cur = self.state[db]
        if st[0] == 'create':
            if st[1] in cur:
                if st[3]:
                    return [ok_packet(0, self.status(s))]
                raise sq.SQLError(1050, "Table '%s' already exists" % st[1], '42S01')
            self.net.nuid += 1
            t = sq.run_create(st)
            t.uid = self.net.nuid
            self.state = {**self.state, db: {**cur, st[1]: t}}
        elif st[0] == 'truncate':
            if st[1] not in cur:
                self.wakeup_soon()
                raise sq.SQLError(1146, "Table '%s.%s' doesn't exist" % (db, st[1]), '42S02')
            self.net.nuid += 1
            t = cur[st[1]].with_rows({})
            t.uid = self.net.nuid
            self.state = {**self.state, db: {**cur, st[1]: t}}
        else:
            new = dict(cur)
            missing = [n for n in st[1] if n not in new]
            if missing and not st[2]:
                self.wakeup_soon()
                raise sq.SQLError(1051, "Unknown table '%s.%s'" % (db, missing[0]), '42S02')
            for n in st[1]:
                new.pop(n, None)
            self.state = {**self.state, db: new}
        self.commits.append((self.k.now, tag, s.id, [x[1] for x in keys]))
        self.k.ev('ddl', self.name, tag, st[0])
        self.net.on_commit(self, s, tag, keys)
        self.wakeup_soon()
        return [ok_packet(0, self.status(s))]

    def wakeup_soon(self):
        self.k.at(self.k.now, self.net.guard(self.wakeup))

    def commit(self, s, tag):
        t = s.txn
        if t is None:
            return
        s.txn = None
        if t.writes:
            st = dict(self.state)
            for (db, n), tab in t.writes.items():
                st[db] = {**st[db], n: tab}
            self.state = st
            self.commits.append((self.k.now, tag, s.id, [x[1] for x in t.writes]))
            self.k.ev('commit', self.name, tag, len(t.writes))
            self.net.on_commit(self, s, tag, list(t.writes), t)
        self.release(s, t)

    def rollback(self, s):
        t = s.txn
        if t is None:
            return
        s.txn = None
        if t.writes:
            self.k.stat('db transactions rolled back with writes')
        self.release(s, t)

    def release(self, s, t):
        for key in t.xlocks:
            if self.xlock.get(key) is s:
                del self.xlock[key]
        for key in t.mdl:
            m = self.mdl.get(key)
            if m is not None:
                m.discard(s)
        if (t.xlocks or t.mdl) and self.waiting:
            self.wakeup_soon()

    def resultset(self, s, cols, rows):
        n = len(cols)
        out = [lenenc(n)]
        for i, c in enumerate(cols):
            out.append(coldef(c, coltype([r[i] for r in rows])))
        out.append(eof_packet(self.status(s)))
        for r in rows:
            b = bytearray()
            for v in r:
                if v is None:
                    b += b'\xfb'
                else:
                    b += lenstr(sq.text(v).encode('utf-8'))
            out.append(bytes(b))
        out.append(eof_packet(self.status(s)))
        return out

    # ---- crashes ---------------------------------------------------------------------------------------------------
    def freeze(self, dur):
        """Answers nothing for a while, neither commands nor new connections."""
        self.k.stat('fault server does not answer')
        self.k.ev('freeze', self.name, dur)
        self.frozen = self.k.now + dur

    def restart(self, down):
        """Crash: sessions and uncommitted work are gone, committed work stays; refuses connections for a while."""
        k = self.k
        k.stat('fault server restart')
        k.ev('restart', self.name, down)
        self.up = False
        for s in list(self.sessions.values()):
            s.conn.reset()
            s.closed = True
            s.txn = None
            s.cur = None
        self.sessions = {}
        self.waiting = []
        self.ddl_wait = []
        self.xlock = {}
        self.mdl = {}

        def back():
            self.up = True
        k.at(k.now + down, back)

    def kill_idle(self):
        """The server closes sessions it considers idle (wait_timeout)."""
        n = 0
        for s in list(self.sessions.values()):
            if s.txn is None and s.cur is None and not s.queue and s.phase == 'cmd':
                s.conn.server_close()
                self.end_session(s)
                n += 1
        self.k.stat('fault idle sessions closed', n)
        self.k.ev('kill-idle', self.name, n)


class Blocked_closed(Blocked):
    """The session was closed while answering."""


class Conn:
    """One TCP connection."""

    def __init__(self, net, server, group, tag):
        self.net = net
        self.k = net.k
        net.nconn += 1
        self.id = net.nconn
        self.server = server
        self.group = group
        self.tag = tag
        self.session = None
        self.rx = bytearray()
        self.eof = False
        self.rst = False
        self.closed = False         # by the client
        self.server_gone = False
        self.reader = None
        self.t_up = 0
        self.t_down = 0
        self.n = 0
        self.refuse1040 = False
        self.inflight = 0
        self.inflight_tag = None
        self.rx_tag = None

    def lat(self):
        self.n += 1
        k = self.k
        if not k.lat:
            return 20 * US
        return k.d.decide('lat:c%d:%d' % (self.id, self.n), 150 * US, lambda r: int(20 * US + r.expo(k.lat)))

    # client -> server
    def up(self, fn):
        t = max(self.t_up + 1, self.k.now + self.lat())
        self.t_up = t
        self.k.at(t, self.net.guard(fn))

    # server -> client
    def down(self, fn):
        t = max(self.t_down + 1, self.k.now + self.lat())
        self.t_down = t
        self.k.at(t, self.net.guard(fn))

    def to_client(self, data):
        def arrive():
            if self.rst:
                return
            self.rx += data
            self.rx_tag = self.inflight_tag
            self.inflight = 0
            self.wake()
        self.down(arrive)

    def wake(self):
        t = self.reader
        if t is not None:
            self.k.wake(t)

    def reset(self, after=False):
        self.server_gone = True

        def arrive():
            self.rst = True
            self.inflight = 0
            self.wake()
        self.down(arrive)

    def server_close(self):
        self.server_gone = True

        def arrive():
            self.eof = True
            self.inflight = 0
            self.wake()
        self.down(arrive)

    def client_gone(self):
        """The client closed the socket (or died): the server notices after the packets under way."""
        if self.closed:
            return
        self.closed = True

        def arrive():
            if self.session is not None:
                self.session.server.end_session_when_idle(self.session)
        self.up(arrive)


def _end_when_idle(self, s):
    # a command that waits for a lock goes on waiting; it is executed and then the session ends
    if s.cur is None and not s.queue:
        self.end_session(s)
    else:
        self.k.at(self.k.now + 5 * MS, self.net.guard(lambda: s.closed or self.end_session_when_idle(s)))


Server.end_session_when_idle = _end_when_idle


class SimSocket:
    family = _socket.AF_INET

    def __init__(self, net, *a):
        self.net = net
        self.timeout = None
        self.conn = None
        self.closed = False

    def settimeout(self, t):
        self.timeout = t

    def setsockopt(self, *a):
        pass

    def fileno(self):
        return -1

    def _dead(self):
        raise OSError(_errno.EBADF, 'Bad file descriptor')

    def connect(self, addr):
        net = self.net
        k = net.k
        t = k.current
        host, port = addr[0], int(addr[1])
        tag = net.tag()
        fault = net.fault(tag, 'connect', None)
        srv = net.servers.get((host, port))
        self.conn = c = Conn(net, srv, t.group, tag)
        net.conns.append(c)
        k.ev('connect', c.id, host, port, tag)
        k.sleep(c.lat())
        if fault and fault[0] == 'blackhole':
            k.stat('fault connect timeout')
            k.sleep(int((self.timeout or 60) * SEC))
            self.conn.closed = True
            raise _socket.timeout('timed out')
        if srv is not None and srv.frozen > k.now:
            k.stat('fault connect to a server that does not answer')
            k.sleep(min(int((self.timeout or 60) * SEC), srv.frozen - k.now + 1))
            if srv.frozen > k.now:
                self.conn.closed = True
                raise _socket.timeout('timed out')
        if srv is None or not srv.up or (fault and fault[0] == 'refused'):
            if fault and fault[0] == 'refused':
                k.stat('fault connect refused')
            self.conn.closed = True
            raise ConnectionRefusedError(_errno.ECONNREFUSED, 'Connection refused')
        if fault and fault[0] == '1040':
            c.refuse1040 = True
        srv.accept(c)
        k.sleep(c.lat())

    def sendall(self, data):
        c = self.conn
        if self.closed or c is None:
            self._dead()
        net = self.net
        k = net.k
        tag = net.tag()
        data = bytes(data)
        if c.rst:
            raise BrokenPipeError(_errno.EPIPE, 'Broken pipe')
        fault = None
        s = c.session
        payload, seq = data[4:], data[3]
        ph = s.phase if s is not None else 'auth'
        if len(data) >= 4:
            fault = net.fault(tag, ph, payload)
        net.on_send(c, s, tag, payload)
        c.inflight = 0 if c.eof else 1
        c.inflight_tag = tag
        if payload[:1] == b'\x01' and ph == 'cmd':
            c.inflight = 0
        if fault and fault[0] == 'rst0':
            k.stat('fault reset before execution')
            k.ev('fault', tag, *fault)
            c.reset()

            def gone():
                if s is not None:
                    s.server.end_session(s)
            c.up(gone)
            return
        if fault:
            k.ev('fault', tag, *fault)

        def arrive():
            if c.server_gone or s is None or s.closed:
                if not c.eof and not c.rst:
                    c.reset()
                return
            s.server.on_packet(s, payload, seq, tag, fault)
        c.up(arrive)

    send = sendall

    def _wait(self):
        c = self.conn
        if self.closed or c is None:
            self._dead()
        k = self.net.k
        deadline = None if self.timeout is None else k.now + int(self.timeout * SEC)
        while not c.rx:
            if c.rst:
                raise ConnectionResetError(_errno.ECONNRESET, 'Connection reset by peer')
            if c.eof:
                return False
            if self.closed:
                self._dead()
            c.reader = k.current
            ok = k.park('recv c%d' % c.id, None if deadline is None else deadline - k.now)
            c.reader = None
            if not ok:
                raise _socket.timeout('timed out')
        return True

    def recv(self, n, *a):
        if n == 0:
            return b''
        if not self._wait():
            return b''
        out = bytes(self.conn.rx[:n])
        del self.conn.rx[:n]
        return out

    def recv_into(self, buf, n=0, *a):
        n = n or len(buf)
        if not self._wait():
            return 0
        out = self.conn.rx[:n]
        m = len(out)
        buf[:m] = out
        del self.conn.rx[:m]
        return m

    def shutdown(self, how):
        if self.closed:
            self._dead()
        if self.conn is not None:
            self.conn.client_gone()

    def close(self):
        if not self.closed:
            self.closed = True
            if self.conn is not None and kern.K is self.net.k:
                self.conn.client_gone()

    def __del__(self):
        try:
            self.close()
        except BaseException:
            pass


class SocketShim:
    """Stands in for the socket module inside mysql.connector.network."""

    def __init__(self):
        self.net = None

    def __getattr__(self, name):
        return getattr(_socket, name)

    def getaddrinfo(self, host, port, *a, **k):
        return [(_socket.AF_INET, _socket.SOCK_STREAM, 6, '', (host, int(port)))]

    def socket(self, *a, **k):
        return SimSocket(self.net, *a)


shim = SocketShim()


def install():
    import mysql.connector.network as n
    n.socket = shim


class Net:
    """The network and every server; also the observation point at the wire."""

    def __init__(self, k, faults=None):
        """faults: {'rate': p, 'kinds': {kind: weight}, 'connect': p, 'servers': ...}"""
        self.k = k
        self.servers = {}
        self.conns = []
        self.nconn = 0
        self.nuid = 0
        self.faults = faults or {}
        self.faults_on = True
        self.refused = {}           # tag -> errnos the servers answered
        self.faulted = {}           # tag -> kinds injected
        self.npkt = {}
        self.hooks = None           # object with on_send, on_statement, on_commit, on_result
        shim.net = self

    def servers_by_name(self, name):
        for s in self.servers.values():
            if s.name == name:
                return s
        raise kern.HarnessError('no server ' + name)

    def guard(self, fn):
        def cb():
            try:
                fn()
            except Blocked:
                pass
            except kern.SimAbort:
                raise
            except BaseException:
                import traceback
                if self.k.end is None:
                    self.k.end = ('harness', traceback.format_exc())
        return cb

    def tag(self):
        t = self.k.current
        return t.tag if t.tag is not None else t.group

    def fault(self, tag, ph, payload):
        """Decide the fault of this packet/connect."""
        n = self.npkt[tag] = self.npkt.get(tag, 0) + 1
        f = self.faults
        if not f or not self.faults_on or not self.eligible(tag):
            return None
        if self.k.now >= f.get('until', 1 << 62):
            return None
        kinds = f.get('kinds', {})

        def gen(r):
            if r.random() >= f.get('rate', 0):
                return None
            if ph == 'connect':
                pool = [(x, kinds[x]) for x in ('refused', '1040', 'blackhole') if kinds.get(x)]
            else:
                pool = [(x, kinds[x]) for x in kinds if x not in ('refused', '1040', 'blackhole') and kinds[x]]
            tot = sum(w for _, w in pool)
            if not tot:
                return None
            x = r.random() * tot
            for name, w in pool:
                x -= w
                if x < 0:
                    break
            if name == 'err':
                codes = f.get('codes', [1205, 1213, 1114, 1142, 1290, 1030, 1317])
                return ['err', codes[r.below(len(codes))]]
            if name == 'stall':
                return ['stall', int(r.expo(f.get('stall', 2 * SEC)))]
            if name == 'rst2':
                return ['rst2', round(r.random(), 3)]
            if name in ('restart0', 'restart1'):
                return [name, int(r.expo(f.get('down', 500 * MS)))]
            return [name]
        v = self.k.d.decide('F:%s:%d' % (tag, n), None, gen)
        if v is not None:
            if v[0] == 'err' and (ph != 'cmd' or payload[:1] != b'\x03'):
                return None
            if ph == 'connect' and v[0] not in ('refused', '1040', 'blackhole'):
                return None
            self.faulted.setdefault(tag, []).append(v[0])
        return v

    def eligible(self, tag):
        f = self.faults
        only = f.get('only')
        if only is not None:
            return tag in only
        return not str(tag).startswith('_')

    def crash_group(self, group):
        for c in self.conns:
            if c.group == group and not c.closed:
                c.client_gone()

    # observation
    def on_send(self, c, s, tag, payload):
        if self.hooks is not None:
            self.hooks.on_send(c, s, tag, payload)

    def on_statement(self, server, s, sql, tag):
        self.k.ev('sql', server.name, s.id, tag, sql)
        if self.hooks is not None:
            self.hooks.on_statement(server, s, sql, tag)

    def on_result(self, server, s, sql, tag, err):
        if self.hooks is not None:
            self.hooks.on_result(server, s, sql, tag, err)

    def on_commit(self, server, s, tag, keys, txn=None):
        if self.hooks is not None:
            self.hooks.on_commit(server, s, tag, keys, txn)

"""C01-C13: whole proxies, MySQL servers and clients in one simulated world."""
import json
import os
import urllib.parse
import weakref

from .. import kernel as kern
from .. import lin
from .. import mysqlsim
from .. import proxy as px
from .. import seams
from .. import boot
from .. import sqlengine as sq
from ..kernel import MS, SEC, US, Draw
from ..runner import stable_hash

META = ['create table p_db_meta(database_name varchar(200), database_type varchar(100), table_name varchar(200), '
        'table_anonymous varchar(200), col_info varchar(8000), key_info varchar(200))',
        'create table p_datasource(id int, name varchar(100), connection_url varchar(200), driver_class_name varchar(100), '
        'username varchar(100), password varchar(100), ping varchar(100))']
HANG = 3000 * SEC


class Rec:
    """One request, as its client sees it."""
    __slots__ = ('op', 'tag', 'inv', 'res', 't0', 't1', 'done', 'lost', 'ans', 'task', 'stub', 'proxy', 'faultless', 'unsent',
                 'q')

    def __init__(self, op, tag):
        self.op = op
        self.tag = tag
        self.inv = self.res = None
        self.t0 = self.t1 = None
        self.done = self.lost = self.unsent = False
        self.ans = None
        self.task = None
        self.stub = None
        self.proxy = None
        self.q = None

    @property
    def ok(self):
        return self.done and bool(self.ans['ok'])

    def __repr__(self):
        return '%s[%s..%s %s] %s' % (self.tag, self.inv, self.res, 'lost' if self.lost else ('ok' if self.ok else 'error'),
                                     self.op.get('sql') or self.op['k'])


def multi(rows):
    return sorted((tuple(canon(v) for v in r) for r in rows), key=repr)


def canon(v):
    if v is None:
        return None
    if isinstance(v, str):
        return v
    if isinstance(v, bool):
        return int(v)
    f = float(v)
    return round(f, 4) + 0.0


def rank(v):
    """Where a value comes in an order by."""
    return (0, 0) if v is None else (1, v.lower().rstrip(' ')) if isinstance(v, str) else (1, v)


class World:
    def __init__(self, scn, plan, decider, opts):
        self.scn = scn
        self.plan = plan
        cfg = dict(plan['kernel'])
        cfg['keep_log'] = opts.get('keep_log')
        self.k = k = kern.Kernel(decider, cfg)
        self.net = mysqlsim.Net(k, plan.get('faults') or {})
        self.net.faults_on = False
        self.net.hooks = self
        self.seq = 0
        self.history = []
        self.byt = {}
        self.inflight = {}
        self.servers = []
        self.proxies = []
        self.nproxy = 0
        self.px = None
        self.states = set()
        self.npk = {}
        self.rt = {}            # values of earlier answers later requests use
        self.crashes = []
        self.ended = False
        self.dsdef = {}
        self.sql_of = {}        # tag -> statements seen by back ends
        self.dropped = set()    # tags of requests for which a back end dropped a table
        self.meta = None
        self.pid = scn.id
        self.taint = None
        self.meta_seen = None
        self.sqlite = None
        self.sqlite_conns = []      # those of the proxy process that runs

    # ---- verdicts --------------------------------------------------------------------------------------------------
    def bad(self, pids, kind, msg):
        k = self.k
        if k.end is not None:
            return
        if isinstance(pids, str):
            pids = (pids,)
        if self.pid in pids:
            k.fail(self.pid, kind, msg)
        elif len(k.soft) < 5:
            k.soft.append((pids[0], kind, msg))

    def tick(self):
        self.seq += 1
        return self.seq

    # ---- set-up ----------------------------------------------------------------------------------------------------
    def build(self):
        plan = self.plan
        if plan.get('meta', 'mysql') == 'mysql':
            self.meta = m = mysqlsim.Server(self.net, 'meta', '127.0.0.1', 3306)
            m.add_db('eulerdb_schema')
            m.add_user('root', '123456', ['eulerdb_schema'])
            for s in META:
                m.admin('eulerdb_schema', s)
            typ = 'mysql'
        else:
            import sqlite3
            typ = 'sqlite'
            self.sqlite = os.path.abspath('meta-%d.db' % os.getpid())
            c = sqlite3.connect(self.sqlite)
            for s in META:
                c.execute(s)
            c.commit()
            c.close()
            real = sqlite3.connect

            cursors = self.sqlite_cursors = weakref.WeakSet()

            class Connection(sqlite3.Connection):
                def cursor(self, *a, **kw):
                    c = sqlite3.Connection.cursor(self, *a, **kw)
                    cursors.add(c)
                    return c

            def connect(*a, **kw):
                c = real(*a, factory=Connection, **kw)
                self.sqlite_conns.append(c)
                return c
            sqlite3.connect = connect
            self.sqlite_real = real
        for s in plan['servers']:
            v = mysqlsim.Server(self.net, s['name'], s['host'], s['port'], s.get('max_conn', 400))
            for d in s['dbs']:
                v.add_db(d)
            for u, p, dbs in s['users']:
                v.add_user(u, p, dbs)
            self.servers.append(v)
        b = plan['servers'][0]
        self.config = ('meta:\n    type: "%s"\n    sqlite: "%s"\n    mysql:\n        host: "127.0.0.1"\n        port: "3306"\n'
                       '        db: "eulerdb_schema"\n        user: "root"\n        passwd: "123456"\n\nback_db:\n    type: "mysql"\n'
                       '    mysql:\n        host: "%s"\n        port: "%d"\n' % (typ, self.sqlite or 'none.db', b['host'], b['port']))
        for i, url, user, pw in plan.get('ds', []):
            self.define(i, url, user, pw, True)
        px.pandas_stub.files = {p: c for p, c in plan.get('files', {}).items()}
        px.pandas_stub.fault = dict(plan.get('file_faults', {}))
        px.pandas_stub.chunk = plan.get('chunk')

    def define(self, i, url, user, pw, new=False):
        """(Re)define a stored data source."""
        if self.meta is not None:
            if new:
                self.meta.admin('eulerdb_schema', "insert into p_datasource values(%d,'ds%d','%s','com.mysql','%s','%s','x')" % (
                    i, i, url, user, pw))
            else:
                self.meta.admin('eulerdb_schema', "update p_datasource set connection_url='%s', username='%s', password='%s' where id=%d" % (
                    url, user, pw, i))
        else:
            import sqlite3
            c = sqlite3.connect(self.sqlite)
            if new:
                c.execute("insert into p_datasource values(?,?,?,?,?,?,?)", (i, 'ds%d' % i, url, 'com.mysql', user, pw, 'x'))
            else:
                c.execute("update p_datasource set connection_url=?, username=?, password=? where id=?", (url, user, pw, i))
            c.commit()
            c.close()
        hp, db = url[len('jdbc:mysql://'):].split('/')
        h, p = hp.split(':')
        self.dsdef.setdefault(i, []).append((self.tick(), h, int(p), db, user, pw))

    def start_proxy(self, wait=True, monitored=True, adopt=True):
        k = self.k
        me = k.current
        p = px.Proxy(k, self.net, '_px%d' % self.nproxy, self.config, on_up=lambda p: k.wake(me), monitored=monitored)
        self.nproxy += 1
        self.proxies.append(p)
        p.start()
        while not p.up and not p.dead:
            k.park('proxy start', 5 * SEC)
        if adopt:
            self.px = p
        return p

    def must_start(self, **kw):
        for n in range(20):
            p = self.start_proxy(**kw)
            if not p.dead:
                return p
            if n < 19:
                # the metadata store may be down: whoever runs the proxy starts it again
                self.k.stat('proxy starts that failed')
                self.k.sleep(5 * SEC)
        self.bad(self.pid, 'no start', 'the proxy does not start: %r' % (p.boot_error,))
        return p

    # ---- clients ---------------------------------------------------------------------------------------------------
    def message(self, op):
        """(path, body, headers) of a request."""
        ep = op.get('ep', 'query')
        js = {'Content-Type': 'application/json'}
        s = self.plan['servers'][op['srv']] if 'srv' in op else None
        info = None
        if s is not None:
            info = {'host': op.get('host', s['host']), 'db': op.get('db'), 'user': op.get('user', s['users'][0][0]),
                    'password': op.get('pw', s['users'][0][1]), 'port': op.get('port', s['port'])}
        if ep == 'query':
            b = dict(info, query=op['sql'])
            if op.get('enc') is not None:
                b['encrypted_columns'] = op['enc']
            if op.get('cipher'):
                b['ciphertext'] = True
            if op.get('batch'):
                b['batch_process'] = op['batch']
            return '/query', json.dumps(b).encode(), js
        if ep == 'jar':
            b = urllib.parse.urlencode({'db': op['db'], 'user': info['user'], 'password': info['password'], 'query': op['sql']})
            return '/query_jar', b.encode(), {'Content-Type': 'application/x-www-form-urlencoded'}
        if ep == 'jdbc':
            if op.get('enc') is not None:
                b = {'create_table': op['sql'], 'selectedJdbcDataSource': {'value': op['ds']},
                     'encrypted_columns': repr(op['enc']) if op.get('encstr') else op['enc']}
            else:
                b = {'sqlQuery': op['sql'] + op.get('semi', ''), 'jdbcDataSourceId': op['ds'], 'ciphertext': bool(op.get('cipher'))}
            return '/jdbc_query', json.dumps(b).encode(), js
        if ep == 'create':
            b = {'selectedJdbcDataSource': {'value': op['ds']}, 'dataSource': op['form'], 'count': len(op['form']),
                 'table_name': op['t'][0]}
            return '/create_table', json.dumps(b).encode(), js
        if ep == 'enc0':
            if op.get('ds') is not None:
                b = {'sqlQuery': op['sql'], 'jdbcDataSourceId': op['ds']}
            else:
                b = dict(info, backend=1, query=op['sql'])
            return '/encrypt_sql', json.dumps(b).encode(), js
        if ep in ('enc1', 'enc2'):
            return '/encrypt_sql' + ep[3], json.dumps({'db': op['db'], 'sql': op['sql']}).encode(), js
        if ep == 'dec':
            t = self.rt.get('id:' + op['of'], op.get('id2'))
            rows = self.rt.get('rows:' + op['rowsof'], []) if op.get('rowsof') else op.get('rows', [])
            return '/decrypt_data', json.dumps({'query_id': t, 'data': {'rows': rows}}).encode(), js
        if ep == 'schema':
            return '/jdbc_query/schema/%d' % op['ds'], b'', {}
        if ep == 'raw':
            return op['path'], op['body'].encode('latin-1'), js
        raise kern.HarnessError('endpoint ' + ep)

    def answer(self, rec, stub):
        op = rec.op
        ep = op.get('ep', 'query')
        code = stub.start.code if stub.start is not None else None
        a = {'ok': code == 200, 'code': code, 'rows': None, 'names': None, 'types': None, 'json': None}
        if code == 200:
            try:
                j = json.loads(bytes(stub.body).decode('utf-8'))
            except ValueError:
                self.bad('C11', 'broken answer', '%r: body is not JSON: %r' % (rec, bytes(stub.body)[:80]))
                return a
            a['json'] = j
            if ep in ('query', 'jar'):
                a['rows'] = j.get('result')
                c = j.get('columns')
                if c:
                    a['names'], a['types'] = c
            elif ep == 'jdbc':
                if j.get('error'):
                    a['ok'] = False
                a['rows'] = []
                if j.get('columns'):
                    a['names'] = [c['name'] for c in j['columns']]
                    a['rows'] = [[d.get(n, '(no such column in the row)') for n in a['names']] for d in json.loads(j['data'])]
        return a

    def request(self, op, tag, target=None):
        """Send one request and wait for its answer."""
        k = self.k
        rec = Rec(op, tag)
        rec.task = k.current
        n = 0
        while target is None and (self.px is None or not self.px.up):
            k.sleep(5 * MS)
            n += 1
            if n > 20000 or self.ended:
                rec.unsent = True
                rec.lost = True
                return rec
        p = rec.proxy = target or self.px
        path, body, headers = self.message(op)
        headers = dict(headers)
        headers['Content-Length'] = str(len(body))
        rec.inv = self.tick()
        rec.t0 = k.now
        self.history.append(rec)
        self.byt[tag] = rec
        self.inflight[tag] = rec
        k.ev('request', tag, op['k'])
        k.stat('requests')

        def deliver(stub):
            if rec.done:
                self.bad('C11', 'two answers', repr(rec))
                return
            if rec.lost:
                return
            rec.ans = self.answer(rec, stub)
            rec.done = True
            rec.res = self.tick()
            rec.t1 = k.now
            self.inflight.pop(tag, None)
            k.ev('answer', tag, rec.ans['code'])
            k.stat('answers ok' if rec.ans['ok'] else 'answers error')
            if rec.ans['ok'] and rec.ans['json'] is not None:
                j = rec.ans['json']
                if isinstance(j, dict) and j.get('id'):
                    self.rt['id:' + tag] = j['id']
                if op.get('cipher'):
                    self.rt['rows:' + tag] = rec.ans['rows']
            k.wake(rec.task)
        rec.stub = p.submit(tag, op.get('method', 'POST'), path, body, headers, deliver)
        while not rec.done and not rec.lost:
            if not k.park('answer ' + tag, HANG):
                self.bad('C11', 'hang', '%r has no answer after %d s' % (rec, HANG // SEC))
                rec.lost = True
                self.inflight.pop(tag, None)
                k.stat('requests without answer')
                break
        return rec

    def client(self, name, ops):
        k = self.k
        for i, op in enumerate(ops):
            if op.get('pre'):
                k.sleep(op['pre'])
            if self.ended:
                return
            self.request(op, op.get('id') or '%s.%d' % (name, i))

    # ---- crashes of the proxy ----------------------------------------------------------------------------------------
    def crash(self, down):
        k = self.k
        p = self.px
        if p is None or p.dead:
            return
        k.stat('fault proxy crash')
        k.ev('crash', p.name)
        p.crash()
        if self.sqlite:
            import sqlite3
            for c in list(self.sqlite_cursors):
                # a dead process holds no locks, not even by the answers it has not read to their end
                try:
                    c.close()
                except sqlite3.ProgrammingError:
                    pass
            while self.sqlite_conns:
                try:
                    self.sqlite_conns.pop().close()
                except sqlite3.ProgrammingError:
                    pass        # belongs to a thread of its own, which has closed it
        for r in list(self.inflight.values()):
            if r.proxy is p:
                r.lost = True
                self.inflight.pop(r.tag, None)
                k.stat('requests cut off by a crash')
                k.wake(r.task)
        self.crashes.append(self.tick())
        k.sleep(down)
        self.must_start()

    # ---- events ------------------------------------------------------------------------------------------------------
    def do_event(self, e):
        k = self.k
        d = e['do']
        if d == 'restart':
            self.net.servers_by_name(e['server']).restart(e['down'])
        elif d == 'kill_idle':
            self.net.servers_by_name(e['server']).kill_idle()
        elif d == 'freeze':
            self.net.servers_by_name(e['server']).freeze(e['down'])
        elif d == 'skew':
            k.stat('fault clock jump')
            k.clock_skew += e['by']
        elif d == 'crash':
            self.crash(e['down'])
        elif d == 'ds':
            k.stat('data source redefined')
            self.define(e['id'], e['url'], e['user'], e['pw'])
        else:
            raise kern.HarnessError('event ' + d)

    def event_task(self, e):
        self.k.sleep(e['at'])
        if not self.ended:
            self.do_event(e)

    def packet_event(self, e, hold):
        k = self.k
        if e.get('fired'):
            return
        e['fired'] = True

        def go():
            if e.get('after'):
                k.sleep(e['after'])
            self.do_event(e)
        k.spawn('event', go)
        if hold and e['do'] == 'crash' and not e.get('after'):
            k.park('crashing', 3600 * SEC)

    # ---- observation at the wire ---------------------------------------------------------------------------------------
    def on_send(self, c, s, tag, payload):
        k = self.k
        n = self.npk[tag] = self.npk.get(tag, 0) + 1
        cmd = payload[0] if s is not None and s.phase == 'cmd' else None
        if s is not None and cmd is not None:
            self.check_session(c, s, tag, cmd, payload)
        if s is not None and c.server is not self.meta:
            self.check_target(c, s, tag, cmd)
            if cmd is not None and self.taint is not None:
                self.taint(c.server, s, tag, payload[1:].decode('utf-8', 'replace'))
        for e in self.plan.get('events', ()):
            if e.get('tag') == tag and e.get('n') == n and not self.ended:
                self.packet_event(e, True)

    def check_session(self, c, s, tag, cmd, payload):
        """C10: one request at a time on a session, and none of another request's leftovers."""
        if cmd == 1:
            return
        if c.inflight and c.inflight_tag != tag:
            self.bad('C10', 'shared session', '%s sends on session %d of %s while the command of %s is unanswered' % (
                tag, s.id, c.server.name, c.inflight_tag))
        t = s.txn
        if t is not None and t.tag != tag and cmd == 3 and not payload[1:].lower().startswith((b'rollback', b'commit')):
            self.bad('C10', 'open transaction', '%s sends %r on session %d of %s inside the transaction of %s' % (
                tag, payload[1:60], s.id, c.server.name, t.tag))
        if c.rx and cmd == 3 and c.rx_tag is not None and c.rx_tag != tag:
            self.bad('C10', 'unread rows', '%s uses session %d of %s with unread rows of %s' % (tag, s.id, c.server.name, c.rx_tag))

    def allowed(self, rec):
        """Addresses and accounts the request may use: (host, port, db, user, password)."""
        op = rec.op
        ep = op.get('ep', 'query')
        if op.get('ds') is not None and ep in ('jdbc', 'create', 'enc0'):
            defs = self.dsdef.get(op['ds'], [])
            out = []
            for i, d in enumerate(defs):
                if i + 1 < len(defs) and defs[i + 1][0] < rec.inv:
                    continue
                out.append(d[1:])
            return out
        if 'srv' not in op:
            return []
        s = self.plan['servers'][op['srv']]
        host, port = (op.get('host', s['host']), int(op.get('port', s['port'])))
        if ep == 'jar':
            b = self.plan['servers'][0]
            host, port = b['host'], b['port']
        return [(host, port, op.get('db'), op.get('user', s['users'][0][0]), op.get('pw', s['users'][0][1]))]

    def check_target(self, c, s, tag, cmd):
        rec = self.byt.get(tag)
        if rec is None or rec.op.get('ep') == 'raw':
            return
        al = self.allowed(rec)
        srv = c.server
        if cmd is None:
            if not any(a[0] == srv.host and a[1] == srv.port for a in al):
                self.bad('C08', 'wrong server', '%r connects to %s:%s' % (rec, srv.host, srv.port))
            return
        if cmd == 1:
            return
        if not any(a == (srv.host, srv.port, s.db, s.user, s.password) for a in al):
            self.bad('C08', 'wrong session', '%r sends command %d on a session of %s:%s db %s user %s password %s; it names %s' % (
                rec, cmd, srv.host, srv.port, s.db, s.user, s.password, al))

    def on_statement(self, server, s, sql, tag):
        if server is self.meta:
            if self.meta_seen is not None:
                self.meta_seen(sql)
        else:
            self.sql_of.setdefault(tag, []).append(sql)
        if len(self.states) < 400:
            self.states.add(stable_hash(repr((server.name, sorted((r.op['k'], self.npk.get(t, 0)) for t, r in self.inflight.items()),
                                              len(self.net.faulted)))))

    def on_result(self, server, s, sql, tag, err):
        if (err is None or err.errno == 1051) and server is not self.meta and sql.lstrip()[:4].lower() == 'drop':
            self.dropped.add(tag)

    def on_commit(self, server, s, tag, keys, txn):
        pass

    # ---- quiescence ----------------------------------------------------------------------------------------------------
    def settle(self, t=70 * SEC):
        """No faults any more; wait until nothing of the past is under way."""
        k = self.k
        self.net.faults_on = False
        while not all(s.up for s in [self.meta] + self.servers if s is not None):
            k.sleep(1 * SEC)
        k.sleep(t)
        for s in [self.meta] + self.servers:
            if s is None:
                continue
            for ss in list(s.sessions.values()):
                n = 0
                while (ss.cur is not None or ss.queue) and not ss.closed and n < 200:
                    k.sleep(1 * SEC)
                    n += 1

    def check_idle(self):
        """C10 at quiescence: no transaction, no lock, sessions within bounds."""
        import gc
        gc.collect()
        self.k.sleep(1 * SEC)
        for srv in [self.meta] + self.servers:
            if srv is None:
                continue
            for s in srv.sessions.values():
                if s.txn is not None:
                    self.bad('C10', 'transaction left', 'session %d of %s keeps the transaction of %s (opened by %s)' % (
                        s.id, srv.name, s.txn.tag, s.opened_by))
            if srv.xlock:
                self.bad('C10', 'lock left', '%s: %s' % (srv.name, list(srv.xlock)))
        # sessions: the pool keeps what it opened for the most requests that ran at once, nothing is lost
        alive = [p for p in self.proxies if p.up]
        for srv in [self.meta] + self.servers:
            if srv is None:
                continue
            n = len([s for s in srv.sessions.values() if s.phase == 'cmd' or s.phase == 'auth'])
            keys = self.pool_keys(srv)
            top = 2 * len(alive) if srv is self.meta else keys * (self.plan.get('peak', 8) + 5) * max(1, len(alive))
            if n > top:
                self.bad('C10', 'sessions leak', '%d sessions of %s open while nothing runs (at most %d expected)' % (n, srv.name, top))

    def pool_keys(self, srv):
        ks = set()
        for r in self.history:
            if r.inv is None:
                continue
            for a in self.allowed(r):
                if a[0] == srv.host and a[1] == srv.port:
                    ks.add((a, type(r.op.get('port', 0)).__name__))
        return max(1, len(ks))

    def drop_check(self, pids):
        """The back end has carried out every drop that was answered with success."""
        for r in self.history:
            if r.ok and r.op['k'] == 'drop' and r.op.get('ep', 'query') in ('query', 'jdbc', 'jar'):
                self.k.stat('acknowledged drops checked')
                if r.tag not in self.dropped:
                    self.bad(pids, 'drop not carried out', '%s: no back end has dropped a table for it' % describe(r))
                    return

    # ---- history checks --------------------------------------------------------------------------------------------------
    def parts(self, recs):
        """Group the requests by connected tables."""
        up = {}

        def find(x):
            while up.setdefault(x, x) != x:
                x = up[x]
            return x
        for r in recs:
            ks = [(r.op['srv'], r.op['db'], t) for t in r.op['t']]
            for a in ks[1:]:
                up[find(a)] = find(ks[0])
            find(ks[0])
        out = {}
        for r in recs:
            out.setdefault(find((r.op['srv'], r.op['db'], r.op['t'][0])), []).append(r)
        return out

    def lin_check(self, pids, recs=None, strict_errors=True, err_no_effect=False, end=None):
        """Every request took effect atomically between request and answer, on a plain database."""
        recs = [r for r in (recs if recs is not None else self.history) if r.op.get('t') and (r.op['k'] in sql_kinds or r.op.get('fill'))
                and r.op.get('ep', 'query') in ('query', 'jdbc', 'jar', 'create') and not r.op.get('cipher') and r.inv is not None
                and not r.op.get('nolin')]
        for key, rs in sorted(self.parts(recs).items()):
            es = []
            for r in rs:
                e = self.entry(r, strict_errors, err_no_effect, end, pids, rs)
                if e is not None:
                    es.append(e)
            try:
                best = lin.check(es, {})
            except lin.Limit:
                self.k.stat('histories too long to decide')
                continue
            self.k.stat('histories checked')
            self.k.stat('requests in histories', len(es))
            if best is not None:
                self.bad(pids, self.plan.get('finding', 'not linearizable'), 'tables of %s: after %s none of these fits: %s' % (
                    key, list(best[1])[-6:], [str(x) for x in best[2]][:6]))
                return

    def entry(self, r, strict, no_effect, end, pids, rs):
        op = r.op
        if op.get('fill'):
            def step(st):
                for sql in op['fill']:
                    st = run(st, sq.parse(sql))[0]
                return st
            return lin.Entry(r.tag, r.inv, r.res if r.ok else end, not r.ok, step, describe(r)) if r.ok or not r.done else None
        ast = parse(op['sql'] if op.get('ep') != 'create' else 'create table if not exists ' + op['sql'].split('table ', 1)[1].replace('if not exists ', ''))
        write = op['k'] != 'select'
        if r.ok:
            def step(st):
                try:
                    new, res = run(st, ast)
                except sq.SQLError:
                    return None
                if res is None:
                    return new if not r.ans['rows'] else None
                return new if self.same(r, res) else None
            return lin.Entry(r.tag, r.inv, r.res, False, step, describe(r))
        if r.done:
            strict_now = (strict if not callable(strict) else strict(r, rs)) and not op.get('may')
            if strict_now:
                def step(st):
                    try:
                        run(st, ast)
                    except sq.SQLError:
                        return st
                    return None
                return lin.Entry(r.tag, r.inv, r.res, False, step, describe(r))
            if not write:
                return None
            if no_effect and no_effect(r):
                return None
        elif not write:
            return None

        def step(st):
            try:
                return run(st, ast)[0]
            except sq.SQLError:
                return None
        return lin.Entry(r.tag, r.inv, end, True, step, describe(r))

    def same(self, r, res):
        names, rows = res
        a = r.ans
        got = a['rows']
        op = r.op
        if got is None:
            return False
        if op.get('agg'):
            exp = rows[0][0] if rows else None
            if not got:
                return exp is None
            if len(got) != 1 or len(got[0]) != 1:
                return False
            g = got[0][0]
            if exp is None:
                return g is None or g == 0
            if g is None or isinstance(g, str):
                return False
            if op['agg'] == 'avg':
                return abs(float(g) - float(exp)) <= 6e-5
            return isinstance(g, int) and g == int(exp) or isinstance(g, float) and g == float(exp)
        if len(got) != len(rows):
            return False
        if got and a['names'] is not None and op.get('names') and op.get('ep', 'query') in ('query', 'jar', 'jdbc'):
            if list(a['names']) != list(op['names']):
                return False
            if a['types'] is not None and op.get('types') and list(a['types']) != list(op['types']):
                return False
        if multi(got) != multi(rows):
            return False
        if op.get('order') and len(got) > 1:
            keys = op['order'] if isinstance(op['order'][0], list) else [op['order']]
            for x, y in zip(got, got[1:]):
                for i, desc in keys:
                    c = (rank(x[i]) > rank(y[i])) - (rank(x[i]) < rank(y[i]))
                    if c:
                        if (c > 0) != desc:
                            return False
                        break
        return True

    # ---- the run ---------------------------------------------------------------------------------------------------------
    def main(self):
        k = self.k
        k.stat('profile ' + self.plan.get('profile', '-'))
        self.must_start()
        self.scn.prof.setup(self)
        self.net.faults_on = True
        ts = []
        for i, ops in enumerate(self.plan['clients']):
            ts.append(k.spawn('cl%d' % i, lambda i=i, ops=ops: self.client('c%d' % i, ops)))
        for e in self.plan.get('events', ()):
            e['fired'] = False
            if 'at' in e:
                k.spawn('event', lambda e=e: self.event_task(e))
        for t in ts:
            k.join(t)
        self.net.faults_on = False
        self.ended = True
        k.sleep(1 * SEC)
        while self.px is not None and not self.px.up and not self.px.boot_error:
            k.sleep(1 * SEC)
        self.scn.prof.finish(self)
        k.finish('ok')

    def run(self):
        self.build()
        self.k.spawn('main', self.main)
        self.k.run()
        if self.sqlite:
            import sqlite3
            sqlite3.connect = self.sqlite_real
            try:
                os.unlink(self.sqlite)
            except OSError:
                pass
        return self.k


sql_kinds = ('create', 'drop', 'insert', 'update', 'delete', 'select')
_asts = {}


def parse(sql):
    a = _asts.get(sql)
    if a is None:
        a = _asts[sql] = sq.parse(sql)
    return a


def run(st, ast):
    return sq.run(st, ast)


def describe(r):
    s = r.op.get('sql') or r.op['k']
    if r.lost:
        return '%s %s -> no answer' % (r.tag, s)
    if not r.ok:
        return '%s %s -> error' % (r.tag, s)
    return '%s %s -> %s' % (r.tag, s, json.dumps(r.ans['rows'])[:160])

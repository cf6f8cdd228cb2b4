"""C14-C19: the connection pool library (dbutils) under a simulated driver, scheduler and faults.

Clients borrow, run statements and transactions, and give back in every way the library offers, while the driver
loses connections, refuses connects and reports errors.  All judgement is made from outside: from what a borrower
calls and gets, and from what reaches the (fake) raw connections.
"""
import copy
import gc
import weakref

from .. import kernel as kern
from .. import fakedb
from ..kernel import US, MS, SEC, Draw

FAIL = (fakedb.OperationalError, fakedb.InterfaceError, fakedb.InternalError)


class Handle:
    """One borrow, as seen from outside."""

    def __init__(self, id, share):
        self.id = id
        self.share = share
        self.own = False            # not one of the pool's: a steady connection of its own
        self.status = 'new'         # borrowing, held, closing, closed, failed
        self.last_raw = None        # raw connection its latest statement ran on
        self.first = True           # no statement of it reached a raw connection yet
        self.nops = 0
        self.txn = None             # None, 'open', 'broken' (an error was reported inside it)
        self.txn_raw = None
        self.txn_ok = []            # writes done in the transaction
        self.txn_seq = 0
        self.txn_dirty = False      # another borrower sharing the connection may have ended the transaction
        self.in_txn = set()         # all writes ever done inside an unbroken transaction
        self.max_poss = 0           # while borrowing: bounds on what others had
        self.max_shared = 0
        self.mates = False          # another sharing borrower was there at some time
        self.quiet = False          # nothing went wrong while it was borrowed

    def __repr__(self):
        return 'h%d' % self.id


class Oracle:
    def __init__(self, k, cfg):
        self.k = k
        self.cfg = cfg
        self.seq = 0
        self.handles = []
        self.calls = {}
        self.committed = set()
        self.share_txn_seq = 0      # last transaction operation of a sharing borrower
        self.srv = None
        self.closed = False         # pool.close() was called

    def tick(self):
        self.seq += 1
        return self.seq

    def bad(self, prop, kind, msg):
        k = self.k
        if k.end is not None:
            return
        if prop != self.cfg['only']:
            if len(k.soft) < 5:
                k.soft.append((prop, kind, msg))
            return
        k.fail(prop, kind, msg)

    # -- one record per call of a client into the library
    def start(self, op, h):
        c = {'op': op, 'h': h, 'hits': 0, 'confail': 0, 'errs': [], 'sqlerr': False, 'prepfail': 0, 'connects': 0,
             'kill': self.srv.kill_seq, 'up': self.srv.up, 'stmts': []}
        self.calls[self.k.current] = c
        return c

    def stop(self):
        self.calls.pop(self.k.current, None)

    def call(self):
        return self.calls.get(self.k.current)

    def handle(self):
        c = self.call()
        return c['h'] if c else None

    def disturbed(self, c):
        """Did the server drop connections or stay away during the call?"""
        return c['kill'] != self.srv.kill_seq or not c['up'] or not self.srv.up

    def hit(self, sql_error=False):
        c = self.call()
        if c:
            c['hits'] += 1
            c['sqlerr'] |= sql_error

    def prep_failed(self):
        c = self.call()
        if c:
            c['prepfail'] += 1

    def connecting(self):
        c = self.call()
        if c:
            c['connects'] += 1

    def connect_failed(self):
        c = self.call()
        if c:
            c['confail'] += 1
            c['hits'] += 1

    def raised(self, e):
        c = self.call()
        if c:
            c['errs'].append((type(e), e.args))

    def raw_open(self, raw):
        pass

    def raw_close(self, raw):
        pass

    # -- what reaches raw connections
    def raw_statement(self, raw, sql, sizes=None):
        c = self.call()
        h = c['h'] if c else None
        if h is None:
            return
        if 'sizes' in c and sizes is not None and c['sizes'] != sizes:
            self.bad('C18', 'other sizes', '%s carried out on %r with the sizes %s, asked for %s' % (sql, raw, sizes, c['sizes']))
        cfg = self.cfg
        c['stmts'].append((sql, raw))
        prep = [s for s in raw.log if s.startswith('SET ')]
        if prep != cfg['setsession']:
            self.bad('C17', 'setsession', '%r runs %s prepared with %s, configured %s' % (raw, sql, prep, cfg['setsession']))
        self.use(h, raw, sql)
        mu = cfg['maxusage']
        raw.shared = getattr(raw, 'shared', False) or self.sharing(h)
        if mu and not raw.shared and h.txn is None and raw.uses >= mu and h.status == 'held':
            self.bad('C18', 'usage limit', '%r carries statement %d outside a transaction, limit %d' % (raw, raw.uses + 1, mu))
        if sql.startswith('W') and any(s == sql for s, _ in raw.pending):
            self.bad('C18', 'twice', '%s executed twice on %r' % (sql, raw))

    def sharing(self, h):
        return h.share and self.cfg['sharing']

    def use(self, h, raw, what):
        cfg = self.cfg
        for g in self.handles:
            if g is h or g.status != 'held' or g.last_raw is not raw:
                continue
            if not (self.sharing(g) and self.sharing(h)):
                self.bad('C14', 'lent twice', '%r used by %r (%s) while lent to %r' % (raw, h, what, g))
            elif h.first and g.txn == 'open' and not g.txn_dirty and g.txn_raw is raw \
                    and g.txn_seq < h.seq_call and not self.replacing():
                self.bad('C14', 'shared in transaction', '%r lent to %r while %r has a transaction open on it' % (raw, h, g))
            elif h.first and g.seq_ret < h.seq_call:
                mx = cfg['maxconnections']
                if h.max_shared < cfg['maxshared'] and not (mx and h.max_poss >= mx):
                    self.bad('C15', 'shared too early', '%r shared by %r and %r with at most %d of %d shareable connections '
                             'in use' % (raw, g, h, h.max_shared, cfg['maxshared']))
        alone = not self.sharing(h) or not h.mates
        if alone:
            for sid, g in raw.pending:
                if g is not None and g is not h and g.status == 'closed' and self.must_clean(g, sid):
                    self.bad('C17', 'not clean', '%r reached by %s of %r with uncommitted %s of %r' % (raw, what, h, sid, g))
            g = raw.begun_by
            if g is not None and g is not h and g.status == 'closed' and not self.sharing(g):
                self.bad('C17', 'not clean', '%r reached by %s of %r inside a transaction of %r' % (raw, what, h, g))
        h.last_raw = raw
        h.first = False

    def must_clean(self, g, sid):
        """Had statement sid of g to be rolled back when g returned its connection?"""
        if self.cfg['reset']:
            return True
        return sid in g.in_txn and not (self.sharing(g) and self.replacing())

    def raw_commit(self, raw):
        h = self.handle()
        if h is not None and not (self.sharing(h) and h.mates):
            for sid, g in raw.pending:
                if g is not None and g is not h and g.status == 'closed' and self.must_clean(g, sid):
                    self.bad('C17', 'not clean', 'commit of %r commits %s of %r' % (h, sid, g))

    def commit_one(self, raw, sid, h):
        if sid in self.committed:
            self.bad('C18', 'twice', '%s committed twice' % sid)
        self.committed.add(sid)

    # -- counting
    def possible(self):
        """Upper bounds: connections in use, shareable connections in use."""
        tot = sh = 0
        for g in self.handles:
            if g.status in ('held', 'closing', 'borrowing') and not g.own:
                tot += 1
                if self.sharing(g):
                    sh += 1
        return tot, sh

    def changed(self):
        tot, sh = self.possible()
        for g in self.handles:
            if sh > 1 and g.status in ('held', 'closing', 'borrowing'):
                g.mates = True
            if g.status == 'borrowing':
                g.max_poss = max(g.max_poss, tot - 1)
                g.max_shared = max(g.max_shared, sh - 1 if self.sharing(g) else sh)

    def definite(self):
        """Lower bound of connections lent."""
        n = 0
        raws = set()
        for g in self.handles:
            if g.status == 'held' and not g.own:
                if self.sharing(g):
                    if g.last_raw is not None and g.last_raw.alive:
                        raws.add(g.last_raw.sid)
                else:
                    n += 1
        if len(raws) > 1 and self.replacing():
            return n + 1        # borrowers of one shared connection may have used it before and after it was replaced
        return n + len(raws)

    def replacing(self):
        """Connections may have been replaced.  The library does not order that against other threads which share one."""
        return self.srv.nfatal or self.srv.kill_seq or self.cfg['maxusage']

    def check_limit(self):
        mx = self.cfg['maxconnections']
        n = self.definite()
        self.k.stats['max lent'] = max(n, self.k.stats.get('max lent', 0))
        if mx and n > mx and not self.closed:
            self.bad('C15', 'limit exceeded', '%d connections lent, maximum %d' % (n, mx))

    def ended_by(self, h):
        """h may have ended its transaction, or that of a borrower it shares the connection with."""
        h.txn_dirty = True
        if self.sharing(h):
            for g in self.handles:
                if g is not h and self.sharing(g):
                    g.in_txn.clear()
                    g.txn_dirty = True

    def new_handle(self, share, own=False):
        h = Handle(len(self.handles) + 1, share)
        h.own = own
        self.handles.append(h)
        h.seq_call = self.tick()
        h.t_call = self.k.now
        h.free = [g for g in self.handles if g is not h and self.sharing(g) and g.status == 'held' and g.txn is None]
        h.txn_quiet = not any(self.sharing(g) and g.txn is not None for g in self.handles)
        h.status = 'borrowing'
        self.changed()
        return h

    def end_handle(self, h, status):
        h.status = status
        h.seq_end = self.tick()
        self.changed()


class Scenario:
    phases = ['main']
    real_code = ['dbutils.pooled_db', 'dbutils.steady_db']
    stubs = ['DB-API driver and database server (sim/fakedb.py)', 'threads, locks, clock (sim/kernel.py, sim/seams.py)']
    state_measure = 'lent/shareable/definitely distinct/borrowing counts at a borrow'

    def __init__(self, pid):
        self.id = pid

    def prepare(self):
        from .. import seams
        seams.install()
        from .. import boot
        self.mods = boot.load_plain(['dbutils', 'dbutils.steady_db', 'dbutils.pooled_db'])
        boot.monitor(self.mods.values())

    def enter_phase(self, ph):
        pass

    def plan(self, seed, phase):
        pid = self.id
        r = Draw(seed, 'plan' + pid)

        def ch(*seq):
            return seq[r.below(len(seq))]
        cfg = {}
        cfg['ts'] = ch(1, 2, 2)
        cfg['maxshared'] = ch(0, 1, 2, 3) if cfg['ts'] == 2 else 0
        cfg['mincached'] = ch(0, 0, 1, 2, 3)
        cfg['maxcached'] = ch(0, 0, 1, 2, 4)
        if cfg['maxcached'] and cfg['maxcached'] < cfg['mincached']:
            cfg['maxcached'] = cfg['mincached']
        lo = max(cfg['maxshared'], cfg['mincached'], cfg['maxcached'], 1)
        if pid in ('C15', 'C16'):
            cfg['maxconnections'] = ch(lo, lo, lo + 1)
        else:
            cfg['maxconnections'] = ch(0, lo, lo, lo, lo + 1, lo + 2)
        cfg['blocking'] = bool(cfg['maxconnections']) and (pid == 'C16' or ch(True, False, pid != 'C15'))
        cfg['maxusage'] = ch(None, 0, 1, 2, 5) if pid == 'C18' else ch(None, None, 0, 3)
        cfg['setsession'] = ch([], ['SET a=1'], ['SET a=1', 'SET b=2'])
        cfg['reset'] = ch(True, True, False, None) if pid != 'C17' else ch(True, True, True, False)
        cfg['ping'] = ch(1, 1, 0, 2, 4, 7)
        cfg['ping_kind'] = ch('none', 'plain', 'flag')
        cfg['has_begin'] = ch(True, False)
        cfg['cursor_checks'] = ch(True, False)
        cfg['failures'] = ch(False, False, True)
        cfg['creator'] = ch('module', 'module', 'function')
        fl = ch(1, 2, 2) if pid in ('C18', 'C19') else ch(0, 0, 1, 2, 2)
        base = [0.0, 0.03, 0.10][fl]
        cfg['pfault'] = {op: base * w for op, w in (('connect', 3 if pid == 'C16' else 1.2), ('execute', 1), ('cursor', .5),
                                                    ('commit', .8), ('rollback', .7), ('ping', 1), ('begin', .5), ('close', 1.5), ('curclose', .3))}
        cfg['pre_mean'] = ch(15, 40, 120, 400)
        cfg['lock_pre'] = ch(0, 0.05, 0.3)
        cfg['pre_delays'] = [0, 30 * US, 300 * US, 3 * MS]
        cfg['lat'] = ch(50 * US, 300 * US, 2 * MS)
        clients = []
        n = 0
        for c in range(2 + r.below(6)):
            sess = []
            for s in range(1 + r.below(4)):
                ops = []
                if r.random() < 0.75:
                    ops.append(['Q'])
                for j in range(r.below(4)):
                    x = r.random()
                    if x < 0.4:
                        ops.append(['B'])
                        for q in range(r.below(4)):
                            ops.append([ch('W', 'W', 'Q', 'S', 'X', 'WM', 'WP')])
                        e = r.random()
                        if e < 0.55:
                            ops.append(['C'])
                        elif e < 0.8:
                            ops.append(['R'])
                    elif x < 0.75:
                        ops.append([ch('W', 'W', 'Q', 'WM', 'WP')])
                        if r.random() < 0.5:
                            ops.append([ch('C', 'C', 'R')])
                    elif x < 0.85:
                        ops.append(['X'])
                    else:
                        ops.append(['S'])
                for o in ops:
                    n += 1
                    o.append(n)
                    o.append(ch(200, 2000, 20000) if o[0] == 'S' else int(r.random() < 0.3))  # pause, or keep the cursor
                sess.append({'own': r.random() < 0.08, 'sizes': r.random() < 0.15,
                             'share': r.random() < (0.6 if cfg['maxshared'] else 0.3), 'ops': ops,
                             'end': ch('close', 'close', 'drop', 'close2', 'with', 'race'), 'gap': ch(0, 100, 1000, 5000)})
            clients.append(sess)
        events = []
        if fl:
            for j in range(r.below(4)):
                events.append([ch('kill', 'kill', 'outage'), r.below(40000), ch(500, 5000, 50000)])
        if r.random() < 0.1 and pid in ('C14', 'C15', 'C16'):
            events.append(['poolclose', r.below(20000), 0])
        return {'cfg': cfg, 'clients': clients, 'events': events}

    def shrink(self, plan):
        def drop(*path):
            p = copy.deepcopy(plan)
            x = p
            for a in path[:-1]:
                x = x[a]
            del x[path[-1]]
            return p
        for i in range(len(plan['clients'])):
            yield drop('clients', i)
        for i in range(len(plan['events'])):
            yield drop('events', i)
        for i, c in enumerate(plan['clients']):
            for j in range(len(c)):
                yield drop('clients', i, j)
        for i, c in enumerate(plan['clients']):
            for j, s in enumerate(c):
                for x in range(len(s['ops'])):
                    yield drop('clients', i, j, 'ops', x)
                if s['gap']:
                    p = copy.deepcopy(plan)
                    p['clients'][i][j]['gap'] = 0
                    yield p
        for key, val in (('mincached', 0), ('setsession', []), ('maxusage', None)):
            if plan['cfg'][key] != val:
                p = copy.deepcopy(plan)
                p['cfg'][key] = val
                yield p

    def execute(self, plan, decider, opts):
        from .. import boot
        cfg = dict(plan['cfg'])
        cfg.update(keep_log=opts.get('keep_log'), only=self.id, sharing=cfg['ts'] > 1 and cfg['maxshared'] > 0,
                   max_steps=60000, max_lines=400000, max_time=300 * SEC)
        k = kern.Kernel(decider, cfg)
        k.blame = (boot.REPO + '/', self.id)
        o = Oracle(k, cfg)
        srv = o.srv = fakedb.Server(k, cfg, o)
        mod = fakedb.Module(srv, cfg['ts'], fakedb.CLASSES[(cfg['ping_kind'], cfg['has_begin'])])
        run = Run(self, k, o, srv, mod, cfg, plan)
        k.spawn('main', run.main)
        k.on_idle = run.idle
        if cfg['maxconnections'] and not cfg['blocking']:
            k.on_advance = run.advance
        boot.start_monitor()
        k.run()
        boot.stop_monitor()
        if k.end[0] in ('steps', 'timeout') and self.id == 'C16':
            k.end = ('violation', ('C16', 'no progress', k.end[1]))
        return k, {'states': sorted(run.states)}


class Run:
    def __init__(self, scn, k, o, srv, mod, cfg, plan):
        self.scn, self.k, self.o, self.srv, self.mod, self.cfg, self.plan = scn, k, o, srv, mod, cfg, plan
        self.states = set()
        self.collecting = False
        self.phase = 'start'
        self.clients = []

    def make_pool(self):
        cfg, mod = self.cfg, self.mod
        creator = mod
        if cfg['creator'] != 'module':
            def creator(*a, **kw):
                return mod.connect(*a, **kw)
            creator.dbapi = mod
            creator.threadsafety = cfg['ts']
        return self.scn.mods['dbutils.pooled_db'].PooledDB(
            creator, mincached=cfg['mincached'], maxcached=cfg['maxcached'], maxshared=cfg['maxshared'],
            maxconnections=cfg['maxconnections'], blocking=cfg['blocking'], maxusage=cfg['maxusage'],
            setsession=list(cfg['setsession']) or None, reset=cfg['reset'], failures=FAIL if cfg['failures'] else None,
            ping=cfg['ping'])

    def main(self):
        k, srv = self.k, self.srv
        srv.faults_on = False
        self.pool = self.make_pool()
        srv.faults_on = True
        self.phase = 'work'
        for kind, at, length in self.plan['events']:
            k.at(k.now + at * US, lambda kind=kind, length=length: self.event(kind, length))
        self.clients = [k.spawn('c%d' % i, lambda i=i, s=s: self.client(i, s)) for i, s in enumerate(self.plan['clients'])]
        k.spawn('mon', self.monitor)
        for t in self.clients:
            k.join(t)
        self.phase = 'settled'
        srv.faults_on = False
        srv.up = True
        if not self.o.closed:
            self.final()
        self.phase = 'done'
        k.finish('ok')

    def event(self, kind, length):
        if self.phase != 'work':
            return
        self.k.stat('fault ' + kind)
        if kind == 'kill':
            self.srv.kill()
        elif kind == 'outage':
            self.srv.outage(length * US)
        elif kind == 'poolclose':
            self.k.spawn('closer', self.pool_close)

    def pool_close(self):
        self.o.start('poolclose', None)
        self.o.closed = True
        self.pool.close()
        self.o.stop()

    def monitor(self):
        """A borrower must not go on waiting while there is free capacity."""
        k, o = self.k, self.o
        mx = self.cfg['maxconnections']
        seen = None
        while self.phase == 'work':
            k.sleep(300 * MS)
            if self.phase != 'work' or not mx:
                return
            tot, _ = o.possible()
            wait = [h for h in o.handles if h.status == 'borrowing']
            now = (o.seq, tuple(h.id for h in wait), tot)
            quiet = not any(t.waiting and (t.waiting.startswith('net') or t.waiting == 'preempted') for t in k.tasks
                            if t.state == 'wait')
            if wait and now == seen and quiet and tot - len(wait) < mx and not (wait[0].share and self.cfg['sharing']):
                o.bad('C16', 'waits with free capacity', '%r waits while %d of %d are in use' % (wait[0], tot - len(wait), mx))
            seen = now

    def advance(self):
        """A non-blocking pool refuses, it does not wait until somebody gives a connection back."""
        if self.phase != 'work':
            return
        waits = None
        for t, c in self.o.calls.items():
            if t.waiting is None or not t.waiting.startswith(('lock', 'join')):
                return
            if c['op'] == 'borrow' and t.waiting == 'lock':
                waits = t
        if waits is not None:
            self.o.bad('C15', 'waits instead of refusing', '%s waits in a non-blocking pool until a connection is given back' % waits.name)

    def idle(self):
        if self.phase != 'done':
            st = [(t.name, t.waiting) for t in self.k.tasks if t.state == 'wait' and t.name not in ('mon', 'main')]
            self.o.bad('C16', 'stuck', 'phase %s: waiting for ever: %s' % (self.phase, st))
        return False

    # ---- clients
    def client(self, ci, sessions):
        for s in sessions:
            if s['gap']:
                self.k.sleep(s['gap'] * US)
            self.session(s)

    def borrow(self, share, alt=False, own=False):
        """Returns (handle, connection or None)."""
        k, o, cfg = self.k, self.o, self.cfg
        h = o.new_handle(share, own)
        call = o.start('borrow', None)
        con = None
        try:
            if own:
                con = self.pool.steady_connection()
            elif share:
                con = self.pool.connection()
            elif alt:
                con = self.pool.dedicated_connection()
            else:
                con = self.pool.connection(False)
        except Exception as e:
            o.stop()
            o.end_handle(h, 'failed')
            k.ev('borrow', h, type(e).__name__)
            k.stat('borrows failed')
            self.borrow_failed(h, e, call)
            return h, None
        o.stop()
        h.seq_ret = o.tick()
        h.status = 'held'
        o.changed()
        h.quiet = call['hits'] == 0 and not o.disturbed(call)
        h.kill = call['kill']
        k.ev('borrow', h, 'ok')
        k.stat('borrows')
        o.check_limit()
        tot, sh = o.possible()
        self.states.add('%d/%d/%d/%d' % (tot, sh, o.definite(), sum(1 for x in o.handles if x.status == 'borrowing')))
        return h, con

    def borrow_failed(self, h, e, call):
        o, cfg = self.o, self.cfg
        mx = cfg['maxconnections']
        if type(e).__name__ == 'TooManyConnections':
            self.k.stat('refused: too many')
            if cfg['blocking']:
                o.bad('C15', 'refused by a blocking pool', repr(e))
            share = o.sharing(h)
            full = bool(mx) and h.max_poss >= mx
            if not full and not (share and h.max_shared >= cfg['maxshared']):
                o.bad('C15', 'refused below the maximum', '%r refused with at most %d of %d (%d of %d shareable) in use' % (
                    h, h.max_poss, mx, h.max_shared, cfg['maxshared']))
            if share and h.txn_quiet and o.share_txn_seq < h.seq_call and not o.closed:
                free = [g for g in h.free if g.status == 'held']
                if free:
                    o.bad('C15', 'refused though shareable', '%r refused though the connection of %r may be shared' % (h, free[0]))
            elif share and o.share_txn_seq < h.seq_call and not o.closed and not o.replacing():
                # which connections have a transaction did not change during the call
                busy = [g.last_raw for g in o.handles if o.sharing(g) and g.txn is not None]
                free = [g for g in h.free if g.status == 'held' and g.last_raw is not None and g.last_raw not in busy]
                if free and None not in busy:
                    o.bad('C15', 'refused though shareable', '%r refused though the connection of %r may be shared' % (h, free[0]))
            return
        if o.closed:
            return
        if not call['errs'] or (not call['confail'] and not call['prepfail'] and not o.disturbed(call)):
            o.bad('C16', 'borrow error', '%r: %s %s though nothing failed' % (h, type(e).__name__, e))

    def session(self, s):
        k, o = self.k, self.o
        own = s.get('own', False)
        h, con = self.borrow(s['share'] and not own, bool(s['gap']), own)
        if con is None:
            return
        self.work(h, con, s)
        h.status = 'closing'
        o.changed()
        how = s['end']
        k.ev('return', h, how)
        o.start('close', h)
        if how != 'drop':
            self.give_back(h, con, how)
        ref = weakref.ref(con)
        con = None
        while ref() is not None:        # only if it was dropped, and is part of a cycle
            if not self.collecting:     # (a collection inside a collection does nothing)
                self.collecting = True
                gc.collect()
                self.collecting = False
            k.sleep(1 * MS)
        o.stop()
        o.end_handle(h, 'closed')
        o.check_limit()

    def give_back(self, h, con, how):
        o = self.o
        if h.own:
            if how == 'with':
                self.txn_op(h, con, 'E')
                o.start('close', h)
            con.close()
            con.close()
            return
        try:
            if how == 'with':
                with con:
                    pass
            elif how == 'race':
                t = self.k.spawn('race', lambda: self.second_close(con, h))
                con.close()
                self.k.join(t)
            else:
                con.close()
                if how == 'close2':
                    con.close()
        except Exception as e:
            o.bad('C14', 'close failed', '%s: %s' % (type(e).__name__, e))
        try:
            cur = con.cursor()
            cur.execute('Q0')
        except Exception:
            pass
        else:
            o.bad('C14', 'used after return', '%r still works after it was given back' % h)
        con = cur = None

    def second_close(self, con, h):
        self.o.start('close', h)
        try:
            con.close()
        except Exception as e:
            self.o.bad('C14', 'close failed', '%s: %s' % (type(e).__name__, e))
        self.o.stop()

    def work(self, h, con, s):
        k = self.k
        cur = None
        for kind, n, arg in s['ops']:
            if kind == 'S':
                k.sleep(arg * US)
            elif kind in 'BCR':
                if not arg:
                    cur = None
                self.txn_op(h, con, kind)
            else:
                cur = self.statement(h, con, kind, n, cur if arg else None, s.get('sizes'))
            h.nops += 1
        con = cur = None

    def txn_op(self, h, con, kind):
        k, o = self.k, self.o
        shared = o.sharing(h)
        if shared:
            o.share_txn_seq = o.tick()
        if kind == 'B' and h.txn is None:
            h.txn, h.txn_raw, h.txn_ok, h.txn_dirty = 'open', None, [], False
            h.txn_seq = 1 << 60
        call = o.start(kind, h)
        if kind != 'B':
            o.ended_by(h)
        err = None
        try:
            if kind == 'B':
                con.begin()
            elif kind == 'C':
                con.commit()
            elif kind == 'E':
                with con:
                    kind = 'C'      # leaving without an error commits
            else:
                con.rollback()
        except Exception as e:
            err = e.with_traceback(None)
            err.__context__ = err.__cause__ = None
        o.stop()
        con = None
        if shared:
            o.share_txn_seq = o.tick()
        if kind == 'B' and err is None and h.txn_seq == 1 << 60:
            h.txn_seq = o.tick()
        if kind != 'B' or err is not None:
            o.ended_by(h)
        k.ev(kind, h, type(err).__name__)
        k.stat('op ' + kind)
        done = [sid for sid in h.txn_ok if sid in o.committed]
        if err is not None:
            self.check_error(h, err, call, kind, '', None, 'x')
            if kind == 'B':
                if h.txn == 'open':
                    h.txn = 'broken'
                return
        elif kind == 'C' and h.txn == 'open' and not shared and len(done) != len(h.txn_ok):
            o.bad('C19', 'commit lost', 'commit of %r returned, committed %s of %s' % (h, done, h.txn_ok))
        elif kind == 'R' and h.txn and not shared and done:
            o.bad('C19', 'committed though rolled back', '%r: %s' % (h, done))
        elif kind == 'C' and h.txn == 'broken' and not shared and done and len(done) != len(h.txn_ok):
            o.bad('C19', 'torn', 'after an error inside the transaction of %r, %s of %s were committed' % (h, done, h.txn_ok))
        if kind in 'CR':
            h.txn = None
            h.txn_ok = []

    def statement(self, h, con, kind, n, cur, sizes=False):
        k, o = self.k, self.o
        sql = '%s%d' % (kind[0], n)
        txn = h.txn
        raw0 = h.last_raw
        dead0 = raw0 is None or not raw0.alive
        call = o.start('stmt', h)
        err = res = None
        try:
            if cur is None:
                cur = con.cursor()
                call['errs'].clear()
            if kind == 'WP':
                cur.callproc(sql)
            else:
                call['sizes'] = {}
                if sizes:
                    call['sizes'] = {'in': [n], None if n & 1 else n: n}
                    cur.setinputsizes([n])
                    if n & 1:
                        cur.setoutputsize(n)
                    else:
                        cur.setoutputsize(n, n)
            if kind == 'WP':
                pass
            elif kind == 'WM':
                cur.executemany(sql, [1])
            else:
                cur.execute(sql)
            res = cur.fetchone()
        except Exception as e:
            err = e.with_traceback(None)
            err.__context__ = err.__cause__ = None
        o.stop()
        con = None
        k.stat('statements')
        k.ev(sql, h, type(err).__name__ if err else 'ok')
        if err is not None:
            cur = None
            k.stat('statement errors')
            o.ended_by(h)
            self.check_error(h, err, call, 'stmt', kind, dead0 if raw0 is not None else None, txn)
            if h.txn == 'open' and isinstance(err, FAIL):
                h.txn = 'broken'
            return None
        ran = [r for q, r in call['stmts'] if q == sql]
        if not ran or res != '%s@%d' % (sql, ran[-1].sid):
            o.bad('C18', 'wrong result', '%s returned %r, ran on %s' % (sql, res, ran))
            return cur
        if kind == 'X':
            o.bad('C18', 'error lost', '%s must fail' % sql)
        live = [r for r in ran if any(p[0] == sql for p in r.pending)]
        if len(live) > 1:
            o.bad('C18', 'twice', '%s is pending on %s' % (sql, live))
        if txn == 'open' and not o.sharing(h):
            if h.txn_raw is not None and ran[-1] is not h.txn_raw:
                o.bad('C19', 'moved', '%s of a transaction of %r ran on %r, earlier statements on %r' % (sql, h, ran[-1], h.txn_raw))
            if len(set(ran)) > 1:
                o.bad('C19', 'moved', '%s of a transaction of %r ran on %s' % (sql, h, ran))
            h.txn_raw = ran[-1]
        if txn == 'open' and sql[0] == 'W':
            h.txn_ok.append(sql)
            if not h.txn_dirty:
                h.in_txn.add(sql)
        if txn == 'open' and h.txn_raw is None:
            h.txn_raw = ran[-1]
        return cur

    def check_error(self, h, e, call, op, kind, dead0, txn):
        """Was this error due, and is it the right one?"""
        o, cfg = self.o, self.cfg
        if o.closed:
            return
        fatal = isinstance(e, FAIL)
        first = h.nops == 0 or (h.nops == 1 and h.first and txn == 'open')
        if fatal and first and h.quiet and call['hits'] == 0 and cfg['ping'] & 1 and cfg['ping_kind'] != 'none' \
                and h.kill == self.srv.kill_seq and not (o.sharing(h) and h.mates) and not cfg['maxusage'] \
                and not call['confail'] and op in ('stmt', 'B'):
            o.bad('C17', 'dead when fetched', '%r got a dead connection: %s' % (h, e))
        if not isinstance(e, fakedb.Error):
            o.bad('C18', 'strange error', '%s: %s: %s' % (op, type(e).__name__, e))
            return
        if op in ('C', 'R') and not o.sharing(h) and call['errs'] and (type(e), e.args) != call['errs'][0]:
            o.bad('C18', 'wrong error', 'ending a transaction raised %r instead of the original %r' % (e, call['errs'][0]))
        if op != 'stmt' or o.sharing(h):
            return
        known = (type(e), e.args) in call['errs']
        usage = bool(cfg['maxusage']) and not e.args
        if not known and not usage:
            o.bad('C18', 'foreign error', '%r was raised by no driver call of this statement' % e)
            return
        if not fatal:
            if not call['sqlerr'] and not call['confail']:
                o.bad('C18', 'foreign error', repr(e))
            if txn is None and call['connects'] and call['hits'] == 1 and dead0 is False and not cfg['maxusage'] \
                    and not o.disturbed(call):
                o.bad('C18', 'needless reconnect', 'a plain statement error made %r reconnect' % h)
            return
        if txn is not None:
            return
        orig = [x for x in call['errs'] if issubclass(x[0], FAIL)]
        if orig and not usage and not cfg['maxusage'] and (type(e), e.args) != orig[0] and type(e) is orig[0][0] \
                and not self.pinging():
            o.bad('C18', 'wrong error', 'raised %r instead of the original %r' % (e, orig[0]))
        if call['hits'] + (dead0 is not False) + bool(cfg['maxusage']) <= 1 and not call['confail'] and not o.disturbed(call) and not call['sqlerr']:
            o.bad('C18', 'not retried', '%s of %r failed with %r though a fresh connection was available' % (kind, h, e))

    def pinging(self):
        return self.cfg['ping'] & 6 and self.cfg['ping_kind'] != 'none'

    # ---- after the work: everything was given back, no more faults
    def final(self):
        k, o, cfg = self.k, self.o, self.cfg
        mx = cfg['maxconnections']
        opened = [r for r in self.srv.conns if not r.closed]
        if cfg['maxcached'] and len(opened) > cfg['maxcached']:
            before = set(opened)
            reach = self.reachable(mx or len(opened))
            kept = [r for r in reach if r in before]
            if len(kept) > cfg['maxcached']:
                o.bad('C15', 'idle kept', '%d idle connections kept, maximum %d' % (len(kept), cfg['maxcached']))
        want = mx or 3
        held, gate = [], []
        ts = [k.spawn('cap%d' % i, lambda i=i: self.hold(i, held, gate, want)) for i in range(want)]
        for t in ts:
            k.join(t)
        if len(held) != want:
            o.bad('C16', 'capacity lost', 'only %d of %d connections can be lent after all were given back' % (len(held), want))
        o.start('poolclose', None)
        self.pool.close()
        o.stop()
        left = [r for r in self.srv.conns if not r.closed]
        if left and not (cfg['sharing'] and o.replacing()):
            # (two borrowers of one shared connection may both replace it; the driver's finalizer closes the loser)
            o.bad('C18', 'leak', '%s never closed' % left)

    def reachable(self, n):
        """Raw connections in the pool, found by borrowing n at once."""
        o = self.o
        got, raws = [], []
        for i in range(n):
            h, con = self.borrow(False)
            if con is None:
                break
            o.start('stmt', h)
            try:
                cur = con.cursor()
                cur.execute('Q%d' % (900000 + i))
                raws.append(h.last_raw)
            except Exception:
                pass
            o.stop()
            cur = None
            got.append((h, con))
        while got:
            h, con = got.pop()
            h.status = 'closing'
            o.start('close', h)
            con.close()
            o.stop()
            con = None
            o.end_handle(h, 'closed')
        return raws

    def hold(self, i, held, gate, want):
        o, k = self.o, self.k
        h, con = self.borrow(False)
        if con is None:
            gate.append(i)
            return
        call = o.start('stmt', h)
        try:
            cur = con.cursor()
            cur.execute('Q%d' % (800000 + i))
        except Exception as e:
            o.bad('C18', 'not retried', 'after all faults stopped: %r' % e)
        o.stop()
        cur = None
        held.append(i)
        gate.append(i)
        while len(gate) < want:
            k.sleep(1 * MS)
        h.status = 'closing'
        o.start('close', h)
        con.close()
        o.stop()
        o.end_handle(h, 'closed')

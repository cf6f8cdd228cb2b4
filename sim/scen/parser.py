"""C20: threads parsing with the real parser (sql_parsing and parsing of the repository), preempted at source lines.

The trees are compared with references: each text, dialect and option set parsed once, alone, in a process of its own
that has parsed nothing but one trivial statement (so neither history nor other threads can have touched it).
"""
import gc
import json
import os
import sys
import types

from .. import boot
from .. import kernel as kern
from .. import proxy
from .. import seams
from ..kernel import MS, SEC, US

DIALECTS = ('parse', 'parse_mysql', 'parse_sqlserver')
NTEXTS = 260
PACKAGES = ('sql_parsing', 'parsing')
SKIP_NAMES = ('exit', 'release', 'unlock', 'close', 'leave', 'done', 'del', 'finish', 'cleanup', 'restore', 'pop')


class Draw(kern.Draw):
    __slots__ = ()

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def expo(self, mean):
        return int(kern.Draw.expo(self, mean))


# ---- texts ---------------------------------------------------------------------------------------------------------

class Gen:
    """Texts of every supported kind of statement, and broken ones."""

    def __init__(self, r):
        self.r = r

    def ident(self):
        r = self.r
        n = r.pick(['a', 'b', 'c1', 'user_id', 'Age', 'name', 'x$', '_id', 'total', 'col'])
        k = r.below(12)
        if k == 0:
            return '`%s`' % n
        if k == 1:
            return '"%s"' % n
        if k == 2:
            return '[%s]' % n
        if k == 3:
            return '%s.%s' % (r.pick(['t1', 't2', 'u']), n)
        return n

    def table(self):
        return self.r.pick(['t1', 't2', 'tab_3', 'SYS.XYZZY', 'db.users', '`order`', 'orders'])

    def lit(self):
        r = self.r
        return r.pick(["'x'", "''", "''''", "'it''s'", "'a;b'", '"dq"', '1', '0', '-3', '2.5', '1e3', 'null', 'NULL', 'true', 'false',
                       "'%x%'", "'select 1'", "'中文'", "'--c'"])

    def expr(self, d):
        r = self.r
        k = r.below(14) if d > 0 else r.below(3)
        if k <= 1:
            return self.ident()
        if k == 2:
            return self.lit()
        e = self.expr
        if k == 3:
            return '%s %s %s' % (e(d - 1), r.pick(['+', '-', '*', '/', '%', '||', '&', '|']), e(d - 1))
        if k == 4:
            return '(%s)' % e(d - 1)
        if k == 5:
            return '%s(%s)' % (r.pick(['sum', 'avg', 'max', 'min', 'count', 'lower', 'coalesce', 'f']),
                               ', '.join(e(d - 1) for _ in range(1 + r.below(2))))
        if k == 6:
            return 'case when %s then %s else %s end' % (self.cond(d - 1), e(d - 1), e(d - 1))
        if k == 7:
            return 'cast(%s as %s)' % (e(d - 1), r.pick(['int', 'varchar(20)', 'decimal(10, 2)', 'date']))
        if k == 8:
            return '(select %s from %s)' % (e(d - 1), self.table())
        if k == 9:
            return 'sum(%s) over (partition by %s order by %s)' % (self.ident(), self.ident(), self.ident())
        if k == 10:
            return '-%s' % self.ident()
        if k == 11:
            return 'count(*)'
        if k == 12:
            return 'distinct %s' % self.ident()
        return '(%s, %s, null)' % (e(d - 1), e(d - 1))

    def cond(self, d):
        r = self.r
        k = r.below(13) if d > 0 else r.below(5)
        e = self.expr
        if k <= 2:
            return '%s %s %s' % (self.ident(), r.pick(['=', '<', '>', '<=', '>=', '<>', '!=', '==']), self.lit())
        if k == 3:
            return '%s %s %s' % (self.ident(), r.pick(['like', 'not like', 'rlike']), self.lit())
        if k == 4:
            return '%s is %snull' % (self.ident(), r.pick(['', 'not ']))
        if k == 5:
            return '%s %s %s' % (self.cond(d - 1), r.pick(['and', 'or', 'AND']), self.cond(d - 1))
        if k == 6:
            return 'not %s' % self.cond(d - 1)
        if k == 7:
            return '(%s)' % self.cond(d - 1)
        if k == 8:
            return '%s %sin (%s)' % (self.ident(), r.pick(['', 'not ']), ', '.join(self.lit() for _ in range(1 + r.below(3))))
        if k == 9:
            return '%s between %s and %s' % (self.ident(), self.lit(), self.lit())
        if k == 10:
            return 'exists (select %s from %s)' % (self.ident(), self.table())
        if k == 11:
            return '%s in (select %s from %s)' % (self.ident(), self.ident(), self.table())
        return '%s = %s' % (e(d - 1), e(d - 1))

    def source(self, d):
        r = self.r
        k = r.below(8) if d > 0 else 0
        if k <= 3:
            return self.table() + r.pick(['', ' a', ' as a', ''])
        if k == 4:
            return '(%s) %s' % (self.select(d - 1), r.pick(['q', 'as q']))
        return '%s %s %s on %s = %s' % (self.source(0), r.pick(['join', 'left join', 'inner join', 'right outer join', 'cross join']),
                                        self.source(d - 1), self.ident(), self.ident())

    def select(self, d=2):
        r = self.r
        s = r.pick(['select ', 'SELECT ', 'select\n  ', 'select distinct '])
        s += r.pick(['*', ', '.join(self.expr(d) + r.pick(['', '', ' as z%d' % i]) for i in range(1 + r.below(3)))])
        if r.below(8):
            s += ' from ' + self.source(d)
        if r.below(2):
            s += ' where ' + self.cond(d)
        if not r.below(4):
            s += ' group by ' + self.ident() + r.pick(['', ' having count(*) > 1', ', ' + self.ident()])
        if not r.below(3):
            s += ' order by ' + self.ident() + r.pick(['', ' desc', ' asc, ' + self.ident()])
        if not r.below(4):
            s += ' limit ' + r.pick(['1', '10', '5 offset 2'])
        return s

    def text(self):
        r = self.r
        k = r.below(20)
        if k <= 8:
            s = self.select(1 + r.below(2))
        elif k == 9:
            s = '%s %s %s' % (self.select(1), r.pick(['union', 'union all', 'intersect', 'except']), self.select(1))
        elif k == 10:
            s = 'insert into %s(%s) values(%s)' % (self.table(), ', '.join('c%d' % i for i in range(3)),
                                                   ', '.join(self.lit() for _ in range(3)))
        elif k == 11:
            s = 'insert into %s (a, b) values %s' % (self.table(), ', '.join('(%s, %s)' % (self.lit(), self.lit()) for _ in range(1 + r.below(3))))
        elif k == 12:
            s = 'update %s set %s where %s' % (self.table(), ', '.join('%s = %s' % (c, self.lit()) for c in ('a', 'b')[:1 + r.below(2)]),
                                               self.cond(1))
        elif k == 13:
            s = 'delete from %s where %s' % (self.table(), self.cond(1))
        elif k == 14:
            s = 'create table %s%s(id int, name varchar(%d), d decimal(10,2)%s)' % (
                r.pick(['', 'if not exists ']), self.table(), 10 + r.below(50), r.pick(['', ' not null', ', primary key (id)']))
        elif k == 15:
            s = 'drop table %s%s' % (r.pick(['', 'if exists ']), self.table())
        elif k == 16:
            s = 'with w as (%s) select * from w' % self.select(1)
        elif k == 17:
            n = r.pick([2, 4, 6])
            s = r.pick(['select ' + '(' * n + '1' + ')' * n, 'select * from ' + '(select * from ' * n + 't1' + ')' * n])
        else:
            # broken texts
            s = self.select(1)
            j = r.below(7)
            if j == 0:
                s = s[:max(1, r.below(len(s)))]
            elif j == 1:
                s = s.replace('select', 'se1ect', 1)
            elif j == 2:
                s = s + ' &&& '
            elif j == 3:
                s = ''
            elif j == 4:
                s = s + " where 'open"
            elif j == 5:
                s = s.replace(' ', ' , ', 1)
            else:
                i = r.below(len(s))
                s = s[:i] + s[i + 1:]
        if not r.below(8):
            s = r.pick(['  ' + s, s + ' ;', s + ';', s + '  ', s + ' -- end', '/* c */ ' + s, s.replace(' ', '\n', 2)])
        return s


def texts():
    r = Draw(4711, 'texts')
    g = Gen(r)
    out = ['select 1', 'select a from t', 'SELECT', '', 'select null', "select * from SYS.XYZZY", "Select '''' from dual",
           "SELECT * FROM dual WHERE a<>'test'", 'se1ect A, B, C from dual', 'select ' + '(' * 300 + '1' + ')' * 300,
           'select * from ' + '(select * from ' * 300 + 't1' + ')' * 300]
    while len(out) < NTEXTS:
        s = g.text()
        if s not in out and len(s) < 400:
            out.append(s)
    return out


DEEP = (9, 10)


def canon(x):
    if isinstance(x, dict):
        return {str(k): canon(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [canon(v) for v in x]
    if x is None or isinstance(x, (str, int, float, bool)):
        return x
    return '<%s %s>' % (type(x).__name__, x)


def scribble(x):
    """What callers do with a tree they own: change it (the null values are the caller's own objects)."""
    if isinstance(x, dict):
        if x == {'null': {}}:
            return
        for v in list(x.values()):
            scribble(v)
        x['scribble'] = 1
    elif isinstance(x, list):
        if x == ['nullmark']:
            return
        for v in list(x):
            scribble(v)
        x.append('scribble')


NULLS = ('default', 'none', 'string', 'list')


def call(sp, dialect, text, null, calls):
    kw = {}
    if null == 'none':
        kw['null'] = None
    elif null == 'string':
        kw['null'] = 'NULLVALUE'
    elif null == 'list':
        kw['null'] = ['nullmark']
    if calls == 'normal':
        kw['calls'] = sp.normal_op
    return getattr(sp, dialect)(text, **kw)


def outcome(f, keep=None):
    try:
        x = f()
        if keep is not None:
            keep.append(x)
        return 'tree ' + json.dumps(canon(x), sort_keys=True)
    except MemoryError:
        return 'error MemoryError'
    except KeyboardInterrupt:
        return 'error KeyboardInterrupt'
    except Exception as e:
        return 'error ' + type(e).__name__


def options_of(i, d):
    """The option sets used with a text: mostly the defaults."""
    r = Draw(815, 'opt%d.%d' % (i, d))
    out = [('default', 'simple')]
    o = (r.pick(NULLS), r.pick(['simple', 'normal']))
    if o not in out:
        out.append(o)
    return out


def references(sp, all_texts):
    """key 'dialect|text|null|calls' -> outcome; every one from a process of its own."""
    import select
    jobs = []
    for d, dialect in enumerate(DIALECTS):
        for part in range(3):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    getattr(sp, dialect)('select 1')
                    gc.freeze()
                    with os.fdopen(w, 'w') as f:
                        for i, t in enumerate(all_texts):
                            if i % 3 != part:
                                continue
                            for null, calls in options_of(i, d):
                                f.write(json.dumps(['%s|%d|%s|%s' % (dialect, i, null, calls),
                                                    alone(lambda: outcome(lambda: call(sp, dialect, t, null, calls)))]) + '\n')
                finally:
                    os._exit(0)
            os.close(w)
            jobs.append((pid, r))
    refs = {}
    bufs = {r: b'' for _, r in jobs}
    left = set(bufs)
    while left:
        for r in select.select(list(left), [], [])[0]:
            b = os.read(r, 1 << 16)
            if b:
                bufs[r] += b
            else:
                left.discard(r)
                os.close(r)
    for pid, _ in jobs:
        os.waitpid(pid, 0)
    for b in bufs.values():
        for line in b.decode().splitlines():
            k, v = json.loads(line)
            refs[k] = v
    return refs


def alone(f):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            with os.fdopen(w, 'w') as g:
                g.write(f())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as g:
        s = g.read()
    os.waitpid(pid, 0)
    return s


# ---- the scenario --------------------------------------------------------------------------------------------------

class Interrupt(Exception):
    pass


class Scenario:
    id = 'C20'
    phases = ['cold', 'warm']
    phase_share = [0.03, 0.97]
    claims = ''
    state_measure = 'which calls (thread, position) were in progress at each start and end of a call'
    real_code = ['sql_parsing/ (all dialects, formatting excluded)', 'parsing/ (the parser combinators)', 'parsing_future/, dots/, imports/']
    stubs = ['locks and thread switches (kernel)', 'allocation failures (MemoryError raised at function entry in parsing/)']

    def __init__(self, pid):
        self.sp = None
        self.warm = False

    def prepare(self):
        seams.install()
        sys.setrecursionlimit(1000)
        if boot.REPO not in sys.path:
            sys.path.insert(0, boot.REPO)
        import sql_parsing
        self.sp = sql_parsing
        self.texts = texts()
        self.refs = references(sql_parsing, self.texts)
        # texts whose parse takes very long are of no use here; unanswered ones are missing from the references
        self.usable = [i for i in range(len(self.texts)) if all(
            '%s|%d|%s|%s' % (dn, i, n, c) in self.refs for d, dn in enumerate(DIALECTS) for n, c in options_of(i, d))]
        if len(self.usable) < len(self.texts) // 2:
            raise kern.HarnessError('only %d texts have references' % len(self.usable))
        self.withnull = [i for i in self.usable if 'null' in self.texts[i].lower()]
        boot.ensure_tool()
        self.codes = {}
        seen = set()
        for fn in gc.get_objects():
            if type(fn) is types.FunctionType:
                p = fn.__code__.co_filename
                rel = os.path.relpath(p, boot.REPO)
                if rel.split(os.sep)[0] in PACKAGES:
                    for c in boot._walk(fn.__code__):
                        if c not in seen:
                            seen.add(c)
                            self.codes.setdefault(rel, []).append(c)
        mon = sys.monitoring
        mon.register_callback(boot.TOOL, mon.events.PY_START, self.py_start)

    def enter_phase(self, ph):
        mon = sys.monitoring
        if ph == 'warm' and not self.warm:
            self.warm = True
            for d in DIALECTS:
                getattr(self.sp, d)('select a, sum(b) from t1 where a=1 order by a desc limit 1')
        for rel, cs in self.codes.items():
            hot = rel.endswith('expressions.py') and ph == 'cold'
            for c in cs:
                ev = mon.events.PY_START if rel.startswith('parsing') else 0
                if not hot:
                    ev |= mon.events.LINE
                mon.set_local_events(boot.TOOL, c, ev)

    # allocation failures: at the entry of a function of parsing/, never while something is being cleaned up
    def py_start(self, code, offset):
        k = kern.K
        if k is None:
            return
        t = k.current
        inj = t.tag if t is not None else None
        if not isinstance(inj, list) or not inj[0]:
            return
        inj[0] -= 1
        if inj[0]:
            return
        f = sys._getframe(1)
        while f is not None:
            n = f.f_code.co_name.lower()
            if any(s in n for s in SKIP_NAMES):
                inj[0] = 1
                return
            f = f.f_back
        k.stat('fault allocation failure')
        k.ev('inject', t.name, code.co_name)
        raise MemoryError('simulated')

    def plan(self, seed, phase):
        r = Draw(seed, 'plan')
        cold = phase == 'cold'
        nt = r.pick([2, 2, 3, 4])
        mode = r.below(4)       # 0: anything, 1: one dialect, 2: mostly nulls, 3: few texts
        fixed = r.below(3)
        pool = self.withnull if mode == 2 else self.usable
        few = [r.pick(pool) for _ in range(3)]
        faulty = r.below(3) == 0

        def one():
            d = fixed if mode == 1 else r.below(3)
            i = r.pick(few) if mode == 3 else r.pick(pool)
            opts = options_of(i, d)
            null, calls = r.pick(opts) if r.below(4) else opts[-1]
            c = {'d': d, 'i': i, 'null': null, 'calls': calls}
            if faulty and r.below(3) == 0:
                c['fail'] = 1 + int(r.expo(3000 if r.below(2) else 300)) + (int(r.expo(60000)) if cold and r.below(2) else 0)
            if r.below(4) == 0:
                c['scribble'] = True
            if r.below(4) == 0:
                c['pre'] = int(r.expo(2 * MS))
            return c
        clients = [[one() for _ in range(1 + r.below(2 if cold else 4))] for _ in range(nt)]
        ker = {'pre_mean': r.pick([20, 100, 400, 2000]) if not cold else r.pick([200, 2000, 20000]),
               'pre_delays': [0, 0, 20 * US, 1 * MS], 'lock_pre': r.pick([0.0, 0.2, 0.5]), 'lat': 0,
               'max_lines': 6_000_000, 'max_steps': 300_000, 'max_time': 3000 * SEC}
        last = [{'d': d, 'i': r.pick(self.usable), 'null': 'default', 'calls': 'simple'} for d in range(3)]
        if cold:
            last = last[:1]
        return {'kernel': ker, 'clients': clients, 'last': last, 'phase': phase}

    def shrink(self, plan):
        import copy
        for i in range(len(plan['clients'])):
            if plan['clients'][i]:
                p = copy.deepcopy(plan)
                p['clients'][i] = []
                yield p
        for i, c in enumerate(plan['clients']):
            for j in range(len(c)):
                p = copy.deepcopy(plan)
                del p['clients'][i][j]
                yield p
                for key in ('fail', 'pre', 'scribble'):
                    if key in c[j]:
                        p = copy.deepcopy(plan)
                        del p['clients'][i][j][key]
                        yield p
        for j in range(len(plan['last'])):
            p = copy.deepcopy(plan)
            del p['last'][j]
            yield p

    def matches(self, f, v):
        m = f.get('match') or {}
        return m.get('kind') == v[1] and m.get('text', '') in v[2]

    def execute(self, plan, decider, opts):
        cfg = dict(plan['kernel'], keep_log=opts.get('keep_log'))
        k = kern.Kernel(decider, cfg)
        states = set()
        running = {}
        scn = self

        def one(name, c):
            dn = DIALECTS[c['d']]
            t = k.current
            t.tag = [c.get('fail', 0)]
            running[name] = c
            states.add(hash(tuple(sorted((n, x['d'], x['i'] % 16) for n, x in running.items()))) & 0xffffffff)
            k.ev('call', name, dn, c['i'], c['null'], c['calls'])
            k.stat('parses')
            keep = []
            got = outcome(lambda: call(scn.sp, dn, scn.texts[c['i']], c['null'], c['calls']), keep)
            if c.get('scribble') and keep:
                scribble(keep[0])
                k.stat('trees changed by their owner')
            injected = bool(c.get('fail')) and t.tag[0] == 0
            t.tag = None
            running.pop(name, None)
            want = scn.refs['%s|%d|%s|%s' % (dn, c['i'], c['null'], c['calls'])]
            k.ev('result', name, got)
            k.stat('rejections' if got.startswith('error') else 'trees')
            if injected:
                k.stat('parses cut short' if got.startswith('error') else 'failures survived')
                return
            if c['i'] in DEEP and got.startswith('error') and want.startswith('error'):
                return
            if got != want:
                k.fail('C20', 'different tree' if got.startswith('tree') else 'rejected',
                       '%s of %r with null=%s calls=%s gives %s, alone it gives %s' % (
                           dn, scn.texts[c['i']][:200], c['null'], c['calls'], got[:300], want[:300]))

        def client(i, ops):
            for j, c in enumerate(ops):
                if c.get('pre'):
                    k.sleep(c['pre'])
                one('c%d.%d' % (i, j), c)

        def main():
            ts = [k.spawn('c%d' % i, lambda i=i, ops=ops: client(i, ops)) for i, ops in enumerate(plan['clients'])]
            for t in ts:
                k.join(t)
            for j, c in enumerate(plan['last']):
                one('last.%d' % j, c)
            k.finish('ok')
        k.spawn('main', main)
        boot.start_monitor()
        k.run()
        boot.stop_monitor()
        if k.end[0] in ('idle', 'timeout', 'steps'):
            k.end = ('violation', ('C20', 'hang', 'ended with %s while %s had not returned' % (
                list(k.end), {n: (DIALECTS[c['d']], self.texts[c['i']][:80]) for n, c in sorted(running.items())})))
        return k, {'states': sorted(states)}

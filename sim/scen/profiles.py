"""Workload, fault and oracle profile of each property C01-C13, C21 and C22."""
import copy
import json
import re

from .. import kernel as kern
from .. import lin
from .. import sqlengine as sq
from ..kernel import MS, SEC, US, Draw
from . import leak
from . import workload as wl
from .workload import R
from . import world as wd

BE = {'name': 'be0', 'host': '10.0.0.1', 'port': 3306, 'dbs': ['app', 'db2'], 'users': [['u1', 'pw1', ['app', 'db2']]]}


def kernel_cfg(r, calm=False):
    pm = r.pick([25, 60, 150, 150, 400, 1000])
    n = r.pick([12, 40, 40, 100])
    f = [n, r.below(n), r.pick([.1, .3, .7]), r.pick([200 * US, 2 * MS, 10 * MS])] if r.chance(.4) else None
    return {'focus': f, 'pre_mean': pm, 'pre_delays': r.pick([[0], [0, 100 * US], [50 * US, 1 * MS], [0, 300 * US, 5 * MS]]),
            'lock_pre': r.pick([0, .02, .1]), 'lat': r.pick([60 * US, 300 * US, 300 * US, 2 * MS]),
            'wall_quantum': r.pick([0, 0, 1 * MS, 15 * MS]), 'max_lines': 6_000_000, 'max_steps': 900_000, 'max_time': 20000 * SEC}


class Profile:
    real = True
    nclients = (2, 4)
    nops = (2, 6)
    faults = None
    weights = None
    pk = .15
    same = True
    big = 0         # share of the runs with a table of many rows

    def __init__(self, pid):
        self.pid = pid

    # ---- plan
    def plan(self, seed, phase):
        r = R(Draw(seed, 'plan'))
        p = {'profile': self.pid, 'kernel': kernel_cfg(r), 'servers': [copy.deepcopy(BE)], 'setup': [], 'clients': [],
             'events': [], 'faults': {}, 'meta': 'mysql',
             'ds': [[1, 'jdbc:mysql://10.0.0.1:3306/app', 'u1', 'pw1'], [2, 'jdbc:mysql://10.0.0.1:3306/db2', 'u1', 'pw1']]}
        self.fill(r, p, phase)
        names = r.wpick([({}, 8), ({'db2': 'App'}, 1), ({'app': 'Sales', 'db2': 'sales'}, 1), ({'app': 'order', 'db2': 'my-db'}, .5)])
        if names:
            p = renamed(p, names)
        p['peak'] = max(len(p['clients']) + 2, p.get('peak', 0))
        return p

    def fill(self, r, p, phase):
        tabs = self.tables(r, p)
        g = wl.Gen(r, tabs, self.opt)
        self.base(r, p, g, tabs)
        self.work(r, p, g, tabs)
        p['tables'] = [t.spec() for t in tabs]
        p['final'] = [g.all_of(t) for t in tabs]
        p['again'] = [[g.create(t), g.insert(t, full=True), g.all_of(t), g.drop(t), g.create(t), g.insert(t), g.all_of(t)] for t in tabs]

    opt = {}

    def tables(self, r, p):
        n = r.wpick([(1, 5), (2, 4), (3, 1)])
        out = []
        same = self.same and n > 1 and r.chance(.25)    # two databases have a table of the same name
        for i in range(n):
            db = 'app' if r.chance(.8) else 'db2'
            name = 'tab%d' % i
            if same and i < 2:
                name, db = 'tab0', ('app', 'db2')[i]
            out.append(wl.table(r, name, id_kind=r.wpick([('pint', 5), ('int', 2)]), db=db, pk=r.chance(self.pk)))
        return out

    def base(self, r, p, g, tabs):
        for t in tabs:
            p['setup'].append(self.ep(r, g.create(t)))
            for _ in range(r.between(0, 4)):
                p['setup'].append(g.insert(t))
        if r.chance(self.big):
            p['setup'].append(g.fill(p, tabs[0], r.pick([120, 260, 1050])))

    def ep(self, r, op):
        """Spread requests over the endpoints."""
        x = r.d.random()
        ds = {'app': 1, 'db2': 2}.get(op['db'])
        if len(set(op.get('names') or ())) < len(op.get('names') or ()):
            return op           # rows of /jdbc_query are objects with a member for each column name
        if op['k'] == 'create':
            if x < .25:
                op['ep'], op['ds'], op['encstr'] = 'jdbc', ds, r.chance(.5)
            elif x < .4 and op.get('simple'):
                op['ep'], op['ds'] = 'create', ds
            return op
        if x < .15:
            op['ep'], op['ds'] = 'jdbc', ds
            if r.chance(.3):
                op['semi'] = ';'
        elif x < .25:
            op['ep'] = 'jar'
        return op

    def work(self, r, p, g, tabs):
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(*self.nops)):
                op = self.ep(r, self.op(r, g, tabs))
                op['pre'] = self.pause(r)
                ops.append(op)
            p['clients'].append(ops)

    def op(self, r, g, tabs):
        return g.any(self.weights)

    def pause(self, r):
        return 0 if r.chance(.7) else int(r.expo(3 * MS))

    # ---- run
    def setup(self, w):
        for i, op in enumerate(w.plan['setup']):
            w.request(op, '_s%d' % i)

    def reads(self, w, ops, prefix='_f', tries=6, target=None):
        """Read everything at the end; a read that fails is repeated (only its last attempt counts)."""
        out = []
        for i, op in enumerate(ops):
            for n in range(tries):
                rec = w.request(op, '%s%d.%d' % (prefix, i, n), target)
                if rec.ok:
                    break
                if n + 1 < tries and not self.absent(w, op):
                    w.history.remove(rec)
                    w.k.sleep(10 * SEC)
                    continue
                break
            out.append(rec)
        return out

    def absent(self, w, op):
        return False

    def finish(self, w):
        w.settle(2 * SEC)
        self.reads(w, w.plan['final'], tries=1)
        w.lin_check([self.pid])
        w.check_idle()

    def use_again(self, w):
        """Every table is wholly usable, or wholly absent and can be created again."""
        for j, ops in enumerate(w.plan['again']):
            # present: drop first, so that it is created again from either state
            last = [r for r in w.history if r.tag.startswith('_f') and r.op['t'] == ops[0]['t'] and r.op['db'] == ops[0]['db']]
            seq = ([ops[3]] if last and last[-1].ok else []) + ops
            for i, op in enumerate(seq):
                w.request(op, '_a%d.%d' % (j, i))

    def shrink(self, plan):
        def small(**kw):
            q = copy.deepcopy(plan)
            q.update(kw)
            return q
        cl = plan['clients']
        for i in range(len(cl)):
            if cl[i]:
                yield small(clients=[[] if j == i else c for j, c in enumerate(cl)])
        for i in range(len(plan.get('events', []))):
            yield small(events=[e for j, e in enumerate(plan['events']) if j != i])
        for kd in list((plan.get('faults') or {}).get('kinds', {})):
            f = copy.deepcopy(plan['faults'])
            del f['kinds'][kd]
            yield small(faults=f)
        for i in range(len(cl)):
            if len(cl[i]) > 1:
                h = len(cl[i]) // 2
                for part in (cl[i][:h], cl[i][h:]):
                    yield small(clients=[part if j == i else c for j, c in enumerate(cl)])
        for i in range(len(cl)):
            for m in range(len(cl[i])):
                yield small(clients=[c[:m] + c[m + 1:] if j == i else c for j, c in enumerate(cl)])
        for i in range(len(plan['setup'])):
            yield small(setup=plan['setup'][:i] + plan['setup'][i + 1:])
        for i in range(len(plan.get('final', []))):
            yield small(final=plan['final'][:i] + plan['final'][i + 1:])


def renamed(p, names):
    """The plan with other names of its databases."""
    if isinstance(p, dict):
        return {k: renamed(v, names) for k, v in p.items()}
    if isinstance(p, list):
        return [renamed(v, names) for v in p]
    if isinstance(p, str):
        if p.startswith('jdbc:'):
            a, b = p.rsplit('/', 1)
            return a + '/' + names.get(b, b)
        return names.get(p, p)
    return p


def tagged(plan):
    """Give every client request a fixed name, so that dropping one does not rename the others."""
    for i, c in enumerate(plan['clients']):
        for m, op in enumerate(c):
            op.setdefault('id', 'c%d.%d' % (i, m))


def many(prof, r, p, g, tabs, share):
    if r.chance(share):
        # more requests at once than a thread pool or a small connection pool has room for
        prof.nclients, prof.nops = (11, 22), (1, 2)
    Profile.work(prof, r, p, g, tabs)
    prof.__dict__.pop('nclients', None)
    prof.__dict__.pop('nops', None)


class C01(Profile):
    nclients = (2, 5)
    nops = (2, 7)
    big = .05
    opt = {'dup': .25, 'likes': True}

    def work(self, r, p, g, tabs):
        many(self, r, p, g, tabs, .03)
        if r.chance(.12):
            # somebody else's tables come and go all the while
            t = wl.table(r, 'side0', n=r.between(1, 2), db=tabs[0].db)
            ops = []
            for _ in range(r.between(2, 5)):
                ops += [g.create(t), g.insert(t), g.drop(t)]
            p['clients'].append(ops)


class C02(Profile):
    weights = [('select', 25), ('insert', 40), ('update', 22), ('delete', 13)]
    kinds = {'rst0': 3, 'rst1': 4, 'rst2': 3, 'refused': 2, '1040': 1, 'restart0': 1, 'restart1': 1, 'stall': .5}

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        k = {x: v for x, v in self.kinds.items() if r.chance(.6)}
        p['faults'] = {'rate': r.pick([.02, .05, .12]), 'kinds': k or {'rst1': 1}, 'down': r.pick([50 * MS, 800 * MS, 5 * SEC]),
                       'stall': r.pick([1 * SEC, 12 * SEC])}
        n = r.wpick([(0, 4), (1, 4), (2, 2)])
        for _ in range(n):
            d = r.wpick([('crash', 4), ('restart', 3), ('kill_idle', 2)])
            e = {'do': d}
            if d == 'crash':
                e['down'] = r.pick([1 * MS, 50 * MS, 1 * SEC])
                ci = r.below(len(p['clients']))
                e['tag'] = 'c%d.%d' % (ci, r.below(len(p['clients'][ci])))
                e['n'] = r.between(1, 9)
                e['after'] = r.pick([0, 0, 100 * US, 700 * US])
            else:
                e['server'] = r.pick(['be0', 'be0', 'meta'])
                e['at'] = int(r.expo(30 * MS))
                if d == 'restart':
                    e['down'] = r.pick([1 * MS, 100 * MS, 3 * SEC])
            p['events'].append(e)
        p['end'] = r.pick(['', 'restart', 'crash', 'both'])

    def finish(self, w):
        w.settle()
        end = w.tick()
        e = w.plan['end']
        if e in ('restart', 'both'):
            for s in w.servers:
                s.restart(100 * MS)
            w.k.sleep(1 * SEC)
        if e in ('crash', 'both'):
            w.crash(100 * MS)
        self.reads(w, w.plan['final'])
        w.lin_check([self.pid], strict_errors=lambda r, rs: r.tag.startswith('_'), end=end)
        w.check_idle()


class C03(Profile):
    weights = [('select', 22), ('insert', 33), ('update', 17), ('delete', 10), ('create', 9), ('drop', 9)]
    opt = {'dup': .3}
    pk = .35

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        p['faults'] = {'rate': r.pick([.03, .08, .15]), 'kinds': {'err': 1},
                       'codes': r.pick([[1205, 1213, 1114, 1142, 1290, 1030, 1317, 1062, 1264, 1406], [1205, 1213], [1062, 1406], [1114, 1290, 1021], [1142], [3024, 1317]])}

    def finish(self, w):
        w.settle()
        # what was refused is accepted now
        again = [r for r in w.history if r.done and not r.ok and r.op.get('t') and w.net.refused.get(r.tag) and not r.tag.startswith('_')]
        for r in again[:8]:
            w.request(r.op, '_r' + r.tag)
        self.reads(w, w.plan['final'], tries=1)
        net = w.net

        def mate(r, rs):
            """A refused create or drop of the same table was under way."""
            return any(o is not r and o.op['k'] in ('create', 'drop') and net.refused.get(o.tag) and set(o.op['t']) & set(r.op['t'])
                       and o.inv < r.res and r.inv < (o.res or 1 << 60) for o in rs)

        def strict(r, rs):
            return not (net.refused.get(r.tag) or net.faulted.get(r.tag)) and not mate(r, rs) or r.tag.startswith('_')

        def no_effect(r):
            return not (r.op['k'] == 'drop' and len(net.refused.get(r.tag, ())) > 1)
        w.lin_check([self.pid], strict_errors=strict, err_no_effect=no_effect, end=w.tick())
        w.drop_check([self.pid])
        w.check_idle()


class C04(Profile):
    """Statements of every form over marked names, keys and values; every packet to a back end is searched for them."""
    nclients = (2, 4)
    nops = (4, 10)
    kinds = {'rst0': 2, 'rst1': 2, 'rst2': 1, 'err': 2, 'refused': 1, '1040': 1, 'restart1': .5}

    def word(self, r, n, first='z'):
        return first + ''.join(r.pick('bcdfghjklmnpqrstvwxz') for _ in range(n))

    def fill(self, r, p, phase):
        p['marks'] = {'values': [], 'ints': [], 'keys': []}
        tabs = []
        for i in range(r.between(2, 3)):
            t = wl.Tab(self.word(r, 5, 'ztab'), 0, 'app')
            kinds = ['pint', 'str', 'int'] + r.sample(['fuz', 'sum', 'flo', 'dbl', 'chr', 'pstr', 'str', 'int'], r.between(0, 3))
            for j, kd in enumerate(kinds):
                pl = kd.startswith('p')
                c = wl.column(r, ('pub' if pl else self.word(r, 4, 'zcol')) + str(j) + ('' if pl else 'x'), kd)
                c['key'] = self.word(r, 8, 'zkey') if c['enc'] else ''
                t.cols.append(c)
                if c['enc']:
                    p['marks']['keys'].append(c['key'])
                    if r.chance(.12) and c['type'] in ('varchar', 'char'):
                        c['def'] = self.word(r, 10, 'zv')
                        p['marks']['values'].append(c['def'])
                    elif r.chance(.12) and c['type'] == 'int':
                        c['def'] = r.between(100000000, 999999999)
                        p['marks']['ints'].append(str(c['def']))
            tabs.append(t)
        self.n = 0
        g = wl.Gen(r, tabs)
        for t in tabs:
            if r.chance(.85):
                p['setup'].append(self.ep(r, g.create(t)))
                for _ in range(r.below(3)):
                    p['setup'].append(self.stmt(r, p, t, tabs, "insert into {t}({p},{s},{n}) values(%d,'{V}',{N})" % r.between(1, 4)))
        p['files'] = {}
        p['file_faults'] = {}
        p['chunk'] = None
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(*self.nops)):
                t = r.pick(tabs)
                x = r.d.random()
                if x < .05:
                    op = self.ep(r, g.create(t, r.chance(.3)))
                elif x < .09:
                    op = g.drop(t)
                elif x < .13:
                    op = self.load(r, p, t)
                else:
                    op = self.stmt(r, p, t, tabs, r.pick(leak.TEMPLATES))
                op['pre'] = self.pause(r)
                op['nolin'] = True
                ops.append(op)
            p['clients'].append(ops)
        if r.chance(.5):
            k = {x: v for x, v in self.kinds.items() if r.chance(.6)}
            p['faults'] = {'rate': r.pick([.03, .1]), 'kinds': k or {'rst1': 1}, 'down': 100 * MS}
        p['tables'] = [t.spec() for t in tabs]
        p['final'] = []

    def stmt(self, r, p, t, tabs, form):
        t2 = r.pick([x for x in tabs if x is not t])

        def enc(t, *types):
            return r.pick([c for c in t.cols if c['enc'] and c['type'] in types])['name']
        nums = ['int', 'float', 'double'] if r.chance(.4) else ['int']
        v = {'t': t.name, 'T': t.name.upper(), 't2': t2.name, 'p': 'pub0', 'p2': 'pub0', 's': enc(t, 'varchar', 'char'), 'n': enc(t, *nums),
             's2': enc(t2, 'varchar', 'char'), 'n2': enc(t2, *nums)}
        v['S'] = v['s'].upper()
        src = form
        while '{V}' in form:
            w = self.word(r, r.between(8, 12), 'zv')
            p['marks']['values'].append(w)
            form = form.replace('{V}', w, 1)
        while '{N}' in form:
            n = str(r.between(100000000, 999999999))
            p['marks']['ints'].append(n)
            form = form.replace('{N}', n + ('.%d' % r.between(1, 99) if r.chance(.06) and not re.search(r'\{N\}\.', form) else ''), 1)
        upper = r.chance(.15)           # names written in another case are left as they are: the back end knows them all the same
        sql = re.sub(r'\{(\w+)\}', lambda m: v[m.group(1)].upper() if upper and r.chance(.4) else v[m.group(1)], form)
        op = {'k': 'form', 't': [t.name] + ([t2.name] if '2}' in src else []), 'sql': sql, 'srv': 0, 'db': 'app'}
        x = r.d.random()
        if x < .15:
            op['ep'], op['ds'] = 'jdbc', 1
        elif x < .25:
            op['ep'] = 'jar'
        elif x < .32:
            op['cipher'] = True
        return op

    def load(self, r, p, t):
        path = 'load%d.csv' % len(p['files'])
        rows = []
        for i in range(r.between(1, 3)):
            row = []
            for c in t.cols:
                if not c['enc']:
                    row.append('3')
                elif c['type'] in ('varchar', 'char'):
                    row.append(self.word(r, 10, 'zv'))
                    p['marks']['values'].append(row[-1])
                else:
                    row.append(str(r.between(100000000, 999999999)))
                    p['marks']['ints'].append(row[-1])
            rows.append(row)
        p['files'][path] = ''.join(','.join(x) + '\n' for x in rows)
        return {'k': 'batch', 't': [t.name], 'srv': 0, 'db': 'app', 'sql': '', 'batch': {'columns': t.names(), 'table': t.name, 'input': path}}

    def setup(self, w):
        sec = leak.Secrets()
        sec.values = dict.fromkeys(w.plan['marks']['values'], 1)
        sec.ints = dict.fromkeys(w.plan['marks']['ints'], 1)
        w.secrets = sec
        tabs = {t['name']: t for t in w.plan['tables']}

        def stable(rec, name):
            """The table is there for certain, from before the request on."""
            if rec.op['k'] == 'create' and rec.op['t'] == [name]:
                return True
            made = [o for o in w.history if o.op['k'] == 'create' and o.op['t'] == [name] and o.ok and o.res < rec.inv]
            return any(all(o.op['k'] == 'create' or o.op['k'] not in ('drop', 'form') or name not in o.op['t'] or
                           o.op['k'] == 'form' and not o.op['sql'].lower().startswith('drop') or (o.done and o.res < m.inv)
                           for o in w.history) for m in made)

        def taint(server, s, tag, text):
            w.k.stat('back-end packets searched')
            rec = w.byt.get(tag)
            if rec is None:
                return
            sec.names = {}
            for n, t in tabs.items():
                if stable(rec, n):
                    sec.names[n] = 'table name'
                    for c in t['cols']:
                        if c['enc']:
                            sec.names[c['name'].lower()] = 'name of an encrypted column'
                            sec.names[c['key'].lower()] = 'encryption key'
            bad, ok = sec.find(text)
            if ok:
                w.k.stat('numbers in clear in order-preserving columns (known)', len(ok))
                if w.plan.get('strict_ope'):
                    w.bad('C04', 'ope-identity', '%s sends %s in clear to an order-preserving column: %s' % (tag, ok, text[:300]))
            if bad and (bad[0] != 'value' or all(stable(rec, n) for n in rec.op['t'])):
                w.bad('C04', 'leak', '%s (%s) sends the %s %s to %s: %s' % (tag, rec.op.get('sql'), bad[0], bad[1], server.name, text[:400]))

        def meta_seen(sql):
            if 'p_db_meta' in sql:
                for m in re.finditer(r'order-preserving\W+(\w+)', sql):
                    sec.ope.add(m.group(1))
        w.taint = taint
        w.meta_seen = meta_seen
        Profile.setup(self, w)

    def finish(self, w):
        w.settle(2 * SEC)
        for r in w.history:
            w.k.stat('forms accepted' if r.ok else 'forms refused')


class C05(Profile):
    nclients = (1, 3)
    nops = (2, 5)
    weights = [('select', 15), ('insert', 22), ('create', 33), ('drop', 30)]

    def base(self, r, p, g, tabs):
        for t in tabs:
            if r.chance(.6):
                p['setup'].append(self.ep(r, g.create(t)))
                for _ in range(r.between(0, 2)):
                    p['setup'].append(g.insert(t))

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        ddl = [(i, m) for i, c in enumerate(p['clients']) for m, op in enumerate(c) if op['k'] in ('create', 'drop')]
        for _ in range(r.wpick([(1, 6), (2, 2)])):
            e = {'do': 'crash', 'down': r.pick([1 * MS, 50 * MS, 1 * SEC])}
            if ddl and r.chance(.85):
                i, m = r.pick(ddl)
                e['tag'] = 'c%d.%d' % (i, m)
                e['n'] = r.between(1, 22)
                e['after'] = r.pick([0, 0, 0, 80 * US, 300 * US, 1 * MS])
            else:
                e['at'] = int(r.expo(20 * MS))
            p['events'].append(e)
        if r.chance(.25):
            p['meta'] = 'sqlite'

    def finish(self, w):
        w.settle(5 * SEC)
        end = w.tick()
        if not w.crashes:
            w.crash(10 * MS)
        self.reads(w, w.plan['final'], tries=1)
        self.use_again(w)
        w.lin_check([self.pid], strict_errors=True, end=end)
        w.drop_check([self.pid])
        w.check_idle()


class C06(Profile):
    nclients = (2, 4)
    nops = (2, 5)
    weights = [('select', 20), ('insert', 20), ('create', 34), ('drop', 26)]
    kinds = {'err': 4, 'rst0': 2, 'rst1': 3, 'rst2': 2, 'refused': 1, '1040': 1, 'restart0': .5, 'restart1': .5}
    base = C05.base

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        if r.chance(.7):
            k = {x: v for x, v in self.kinds.items() if r.chance(.6)}
            p['faults'] = {'rate': r.pick([.03, .08, .2]), 'kinds': k or {'err': 1}, 'down': 300 * MS}
        if r.chance(.25):
            p['meta'] = 'sqlite'

    def finish(self, w):
        w.settle()
        end = w.tick()
        old = w.px
        new = w.must_start(adopt=False, monitored=False)
        self.compare(w, old, new)
        self.reads(w, w.plan['final'], prefix='_g', target=new)
        self.reads(w, w.plan['final'], target=old)
        self.use_again(w)
        net = w.net
        calm = not w.plan['faults'] and not w.plan['events']

        def no_effect(r):
            # refused by a server, and nothing else happened to it
            return len(net.refused.get(r.tag, ())) == 1 and len(net.faulted.get(r.tag, ())) <= 1
        w.lin_check([self.pid], strict_errors=lambda r, rs: calm or r.tag.startswith('_'), err_no_effect=no_effect, end=end)
        w.drop_check([self.pid])
        w.check_idle()

    def compare(self, w, a, b):
        n = 0
        for t in w.plan['tables'] + [{'name': 'nosuch', 'db': 'app', 'srv': 0, 'cols': []}]:
            sqls = ['select * from %s' % t['name']]
            for c in t['cols']:
                v = "'probe'" if c['type'] in ('varchar', 'char') else '5'
                sqls.append('select %s from %s where %s=%s' % (c['name'], t['name'], c['name'], v))
                if c['arith']:
                    sqls.append('select sum(%s) from %s' % (c['name'], t['name']))
            for q in sqls:
                op = {'k': 'convert', 'ep': 'enc1', 'db': t['db'], 'sql': q}
                n += 1
                x = w.request(op, '_va%d' % n, a)
                y = w.request(op, '_vb%d' % n, b)
                if not (x.ok and y.ok) or x.ans['json'] != y.ans['json']:
                    w.bad('C06', 'catalogs differ', '%s: the running proxy makes %s of it, a fresh one %s' % (
                        q, x.ans and x.ans['json'], y.ans and y.ans['json']))
                    return


class C07(Profile):
    """Reference answers of a fresh proxy asked one at a time, against those given under load."""
    nclients = (3, 6)
    nops = (3, 7)

    def work(self, r, p, g, tabs):
        pool = []
        for _ in range(r.between(5, 9)):
            pool.append(self.stable(r, g, tabs))
        p['pool'] = pool
        for c in range(r.between(*self.nclients)):
            ops = []
            for m in range(r.between(*self.nops)):
                i = r.below(len(pool))
                op = dict(pool[i], ref=i, pre=self.pause(r))
                ops.append(op)
            p['clients'].append(ops)

    def stable(self, r, g, tabs):
        """A request whose answer depends on nothing but itself (the data do not change)."""
        t = r.pick(tabs)
        x = r.d.random()
        if x < .3:
            return self.ep(r, g.any([('select', 8), ('join', 2), ('sum', 2)], [t]))
        if x < .4:
            op = g.select(t)
            return dict(op, cipher=True)
        if x < .8:
            while True:
                op = g.any([('select', 4), ('insert', 3), ('update', 3), ('delete', 2), ('join', 1), ('drop', 1)])
                if not (op['k'] in ('insert', 'update') and any(c['arith'] for t in tabs if t.name in op['t'] for c in t.cols)):
                    break
            ep = r.pick(['enc0', 'enc1', 'enc2', 'enc1', 'enc2'])
            d = dict(op, ep=ep, k='convert')
            if ep == 'enc0' and r.chance(.5):
                d['ds'] = {'app': 1, 'db2': 2}[t.db]
            return d
        bad = r.pick(['selec * from %s' % t.name, 'select nosuch from %s' % t.name, 'select * from nosuch', 'select * from %s where' % t.name,
                      'insert into %s(id) values' % t.name, 'update %s set nosuch=1' % t.name, 'select (((', 'delete from',
                      "select id from %s where id='" % t.name, 'select count(*), from %s' % t.name, 'insert into %s values(1)' % t.name,
                      'select max(nosuch) from %s' % t.name, 'drop table nosuch', ''])
        ep = r.pick(['query', 'jdbc', 'enc1', 'enc2', 'enc0'])
        return {'k': 'failing', 'sql': bad, 'srv': t.srv, 'db': t.db, 'ep': ep, 'ds': 1 if ep == 'jdbc' else None, 'nolin': True}

    def setup(self, w):
        Profile.setup(self, w)
        ref = w.start_proxy(adopt=False, monitored=False)
        pool = w.plan['pool']
        self.ref = {}
        for i in reversed(range(len(pool))):
            rec = w.request(pool[i], '_ref%d' % i, ref)
            self.ref[i] = (self.view(w, rec), self.wire(w, rec.tag))
            w.history.remove(rec)
        ref.crash_later = True

    def view(self, w, rec):
        a = rec.ans
        if a is None:
            return None
        j = a['json']
        if isinstance(j, dict):
            j = {k: v for k, v in j.items() if k != 'id'}
            if 'result' in j and isinstance(j['result'], list) and not rec.op.get('order'):
                j['result'] = sorted(j['result'], key=repr)
            if 'data' in j and isinstance(j['data'], str) and not rec.op.get('order'):
                j['data'] = sorted(j['data'][1:-1].split('},'))
        return [a['code'], j]

    def wire(self, w, tag):
        return sorted(q for q in w.sql_of.get(tag, []) if not q.upper().startswith(('SET ', 'ROLLBACK', 'COMMIT', 'START', 'BEGIN')))

    def finish(self, w):
        w.settle(2 * SEC)
        for r in w.history:
            i = r.op.get('ref')
            if i is None or r.tag.startswith('_') or i not in self.ref:
                continue
            want, sqls = self.ref[i]
            w.k.stat('answers compared with a reference')
            if r.op['k'] == 'failing' and want and r.ans and want[0] == r.ans['code']:
                pass
            got = self.view(w, r)
            if got != want:
                w.bad('C07', 'different answer', '%s: alone %s, among others %s' % (wd.describe(r), json.dumps(want)[:300], json.dumps(got)[:300]))
                return
            if self.wire(w, r.tag) != sqls and set(self.wire(w, r.tag)) != set(sqls):
                w.bad('C07', 'different statement', '%s: alone %s, among others %s' % (wd.describe(r), sqls[:3], self.wire(w, r.tag)[:3]))
                return
        w.lin_check(['C01'])
        w.check_idle()

    def base(self, r, p, g, tabs):
        Profile.base(self, r, p, g, tabs)
        for t in tabs:
            for _ in range(3):
                p['setup'].append(g.insert(t))


class C08(Profile):
    nclients = (3, 6)
    nops = (2, 6)

    def plan(self, seed, phase):
        p = Profile.plan(self, seed, phase)
        return p

    def fill(self, r, p, phase):
        # accounts and addresses that collide when glued together
        s0 = {'name': 'be0', 'host': '10.0.0.1', 'port': 3306, 'dbs': ['app', 'db2', 'ap'],
              'users': [['u1', 'pw1', ['app', 'db2']], ['u1p', 'w1', ['app', 'db2']], ['u', '1pw1', ['app', 'db2', 'ap']], ['U1', 'pw1', ['app', 'db2']], ['pu1', 'pw1', ['ap']],
                        ['u2', 'pw1', ['db2']]]}
        s1 = {'name': 'be1', 'host': '10.0.0.2', 'port': 3306, 'dbs': ['app', 'db2'],
              'users': [['u1', 'pw2', ['app', 'db2']], ['u1p', 'w1', ['app', 'db2']]]}
        s2 = {'name': 'be2', 'host': '10.0.0.1', 'port': 3307, 'dbs': ['app', 'db2'], 'users': [['u1', 'pw1', ['app', 'db2']], ['u2', 'pw2', ['app']]]}
        p['servers'] = [s0, s1, s2]
        p['jar'] = r.pick([.2, .4, .9])
        tabs = []
        n = 0
        for si, s in enumerate(p['servers']):
            for db in ('app', 'db2'):
                if r.chance(.7) or not tabs:
                    tabs.append(wl.table(r, 'tab%d' % n, n=r.between(1, 2), srv=si, db=db))
                    n += 1
        g = wl.Gen(r, tabs)
        p['ds'] = []
        for i in range(3):
            si = r.below(3)
            s = p['servers'][si]
            u = r.pick([x for x in s['users'] if 'app' in x[2] or 'db2' in x[2]])
            db = r.pick([d for d in u[2] if d in ('app', 'db2')])
            p['ds'].append([i + 1, 'jdbc:mysql://%s:%d/%s' % (s['host'], s['port'], db), u[0], u[1]])
        for t in tabs:
            p['setup'].append(g.create(t))
            for _ in range(r.between(1, 3)):
                p['setup'].append(g.insert(t))
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(*self.nops)):
                ops.append(self.one(r, p, g, tabs))
            p['clients'].append(ops)
        for _ in range(r.below(3)):
            i = r.below(3)
            s = r.pick(p['servers'])
            u = r.pick([x for x in s['users'] if 'app' in x[2]])
            p['events'].append({'do': 'ds', 'id': i + 1, 'at': int(r.expo(25 * MS)), 'user': u[0], 'pw': u[1],
                                'url': 'jdbc:mysql://%s:%d/app' % (s['host'], s['port'])})
        if r.chance(.3):
            p['faults'] = {'rate': .04, 'kinds': {'rst0': 1, 'rst1': 1, 'rst2': 1, 'refused': 1}}
        if r.chance(.2):
            p['events'].append({'do': 'kill_idle', 'server': 'be0', 'at': int(r.expo(20 * MS))})
        p['tables'] = [t.spec() for t in tabs]
        p['final'] = [g.all_of(t) for t in tabs]
        p['again'] = []

    def one(self, r, p, g, tabs):
        t = r.pick(tabs)
        op = g.any([('select', 40), ('insert', 30), ('update', 15), ('delete', 5)], [t])
        op['pre'] = self.pause(r)
        s = p['servers'][t.srv]
        x = r.d.random()
        if x < .45:
            u = r.pick(s['users'])
            op['user'], op['pw'] = u[0], u[1]
            op['deny'] = t.db not in u[2]
        elif x < .7:
            # credentials of someone else, glued differently, or plainly wrong
            u = r.pick(s['users'])
            op['user'] = u[0]
            op['pw'] = r.pick(['bad', '', 'pw1', 'pw2', 'w1', '1pw1', 'pw11', 'PW1'])
            ok = [x for x in s['users'] if x[0] == op['user'] and x[1] == op['pw']]
            op['deny'] = not ok or t.db not in ok[0][2]
        else:
            d = r.pick(p['ds'])
            op['ep'], op['ds'] = 'jdbc', d[0]
            op['nolin'] = True
            if r.chance(.3):
                op['ep'], op['k'] = 'enc0', 'convert'
        if op.get('ep') is None and t.srv == 0 and r.chance(p['jar']):
            op['ep'] = 'jar'
        if op.get('ep') is None and r.chance(.1):
            op['port'] = str(s['port'])
        if op.get('deny'):
            op['nolin'] = True
        return op

    def finish(self, w):
        for r in w.history:
            if r.ok and r.op.get('deny') and r.op.get('ep', 'query') in ('query', 'jar'):
                w.bad('C08', 'wrong credentials accepted', '%r user %s password %s' % (r, r.op['user'], r.op['pw']))
                return
        w.settle(2 * SEC)


class C09(Profile):
    """Tickets: issued under frozen and jumping clocks, used later, in any order, after drops and re-creates."""
    nclients = (2, 5)
    nops = (3, 8)

    def fill(self, r, p, phase):
        tabs = self.tables(r, p)
        g = wl.Gen(r, tabs, {'nulls': False})
        self.base(r, p, g, tabs)
        for t in tabs:
            for _ in range(2):
                p['setup'].append(g.insert(t))
        qs = []
        for i in range(r.between(3, 6)):
            t = r.pick(tabs)
            while True:
                q = g.select(t)
                if not q.get('agg') and 'count(' not in q['sql']:
                    break
            if r.chance(.15) and len(tabs) > 1:
                o = [x for x in tabs if x is not t and x.db == t.db]
                q = (g.join(t, o[0]) if o else None) or q
            qs.append(q)
        p['queries'] = qs
        for i, q in enumerate(qs):
            p['setup'].append(dict(q, cipher=True, id='_q%d' % i))
        drops = r.chance(.4)
        n = 0
        nt = []
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(*self.nops)):
                x = r.d.random()
                if x < .5 or not nt:
                    i = r.below(len(qs))
                    ops.append({'k': 'ticket', 'ep': 'enc2', 'db': qs[i]['db'], 'sql': qs[i]['sql'], 'q': i})
                    nt.append('c%d.%d' % (c, len(ops) - 1))
                elif x < .87:
                    of = r.pick(nt) if r.chance(.85) else nt[-1]
                    ops.append({'k': 'decrypt', 'ep': 'dec', 'of': of})
                elif x < .92:
                    ops.append({'k': 'unknown', 'ep': 'dec', 'of': 'never', 'id2': r.pick(
                        ['', '0', '1', 'deadbeef', '20201231235959', '0' * 32, str(r.below(10 ** 9)), '1600000000']), 'q': r.below(len(qs))})
                else:
                    ops.append({'k': 'badticket', 'ep': 'enc2', 'db': 'app', 'sql': r.pick(['select nosuch from tab0', 'selec', 'select * from nosuch'])})
                ops[-1]['pre'] = self.pause(r)
            p['clients'].append(ops)
        if drops:
            t = r.pick(tabs)
            # dropped and created again with other keys
            t2 = wl.table(r, t.name, n=r.between(1, 3), db=t.db)
            g2 = wl.Gen(r, [t2])
            ops = [g.drop(t), g2.create(t2), g2.insert(t2)]
            ops[0]['pre'] = int(r.expo(15 * MS))
            p['clients'].append(ops)
        p['kernel']['wall_quantum'] = r.pick([0, 1 * MS, 1 * SEC, 3600 * SEC])
        for _ in range(r.below(3)):
            p['events'].append({'do': 'skew', 'at': int(r.expo(20 * MS)), 'by': r.pick([-3600 * SEC, -1 * SEC, -5 * MS, 1 * SEC, 86400 * SEC])})
        p['tables'] = [t.spec() for t in tabs]
        p['final'] = []
        p['drops'] = drops
        p['bulk'] = 0 if drops or r.chance(.96) else r.pick([70, 140, 140, 270, 270, 520, 520, 1050, 1050, 2100, 4200])
        if p['bulk']:
            p['kernel']['pre_mean'] = 40000
            p['clients'] = p['clients'][:2]
        # tickets are good for as long as the process lives
        p['age'] = r.wpick([(0, 6), (3700, 1), (90000, 1), (40 * 86400, 1)])
        p['kernel']['max_time'] += 2 * p['age'] * SEC

    def setup(self, w):
        for i, op in enumerate(w.plan['setup']):
            w.request(op, op.get('id') or '_s%d' % i)
        self.model(w)
        # the ciphertext each query returns now; a ticket may be used with it at any later time
        for c in w.plan['clients']:
            for op in c:
                if op['k'] == 'decrypt':
                    src = find(w.plan, op['of'])
                    op['rowsof'] = '_q%d' % src['q'] if src else None
                elif op['k'] == 'unknown':
                    op['rowsof'] = '_q%d' % op['q']
        qs = w.plan['queries']
        for i in range(w.plan['bulk']):
            w.request({'k': 'ticket', 'ep': 'enc2', 'db': qs[i % len(qs)]['db'], 'sql': qs[i % len(qs)]['sql'], 'q': i % len(qs)}, '_b%d' % i)

    def model(self, w):
        st = {}
        for op in w.plan['setup']:
            if op.get('cipher'):
                continue
            d = st.setdefault(op['db'], {})
            sql = op['sql']
            try:
                st[op['db']], _ = wd.run(d, wd.parse(sql))
            except sq.SQLError:
                pass
        self.expect = []
        for q in w.plan['queries']:
            self.expect.append(wd.run(st[q['db']], wd.parse(q['sql']))[1])

    def finish(self, w):
        k = w.k
        w.settle(1 * SEC)
        seen = {}
        for r in w.history:
            if r.op['k'] in ('ticket', 'badticket') and r.ok and r.ans['json'].get('id'):
                if r.op['k'] == 'badticket':
                    w.bad('C09', 'ticket for nothing', wd.describe(r))
                    return
                i = r.ans['json']['id']
                if i in seen:
                    w.bad('C09', 'ticket issued twice', '%s for %s and %s' % (i, seen[i], r.tag))
                    return
                seen[i] = r.tag
        if not w.plan['drops']:
            for r in w.history:
                if r.op['k'] == 'ticket' and not (r.ok and r.ans['json'].get('id')):
                    w.bad(('C09', 'C01'), 'no ticket', wd.describe(r))
                    return
        # every ticket once more, in another order, after everything
        w.settle(w.plan['age'] * SEC)
        tags = [t for t in w.byt if w.byt[t].op['k'] == 'ticket']
        if len(tags) > 60:
            tags = tags[:12] + tags[12:-30:len(tags) // 16] + tags[-30:]
        for t in reversed(tags):
            if w.rt.get('id:' + t):
                w.request({'k': 'decrypt', 'ep': 'dec', 'of': t, 'rowsof': '_q%d' % w.byt[t].op['q']}, '_d' + t)
        for i in range(2):
            w.request({'k': 'unknown', 'ep': 'dec', 'of': 'never', 'id2': 'zz%d' % i, 'rowsof': '_q0'}, '_u%d' % i)
        for r in w.history:
            j = r.ans['json'] if r.ok else None
            if r.op['k'] == 'unknown':
                if j != {'result': ''}:
                    w.bad('C09', 'data without a ticket', '%s -> %s' % (r.op, j))
                    return
            if r.op['k'] == 'decrypt':
                src = w.byt.get(r.op['of'])
                if src is None or src.res is None or src.res > r.inv or not w.rt.get('id:' + r.op['of']):
                    continue
                if w.plan['drops'] and self.moved(w, src):
                    continue
                i = src.op['q']
                names, rows = self.expect[i]
                q = w.plan['queries'][i]
                k.stat('decryptions checked')
                if not w.rt.get('rows:_q%d' % i) and rows:
                    continue
                d = (j or {}).get('data')
                if not d or d.get('columns') != q['names'] or not same_rows(d.get('rows'), rows, q.get('order')) or j['query_id'] != w.rt['id:' + src.tag]:
                    w.bad('C09', 'wrong decryption', '%s of %s (%s): %s, expected %s %s' % (
                        r.tag, src.tag, q['sql'], json.dumps(j)[:300], q['names'], json.dumps(rows, default=str)[:200]))
                    return

    def moved(self, w, src):
        """The ticket was issued while its table was dropped and created again: it may be of either."""
        ts = w.plan['queries'][src.op['q']]['t']
        return any(o.op['k'] in ('drop', 'create') and not o.tag.startswith('_') and set(o.op['t']) & set(ts) and o.inv < src.res
                   for o in w.history)


def find(plan, tag):
    for i, c in enumerate(plan['clients']):
        for m, op in enumerate(c):
            if (op.get('id') or 'c%d.%d' % (i, m)) == tag:
                return op
    return None


def same_rows(got, rows, order=None):
    if got is None or len(got) != len(rows):
        return False
    return wd.multi(got) == wd.multi(rows)


FAULTS = {'rst0': 2, 'rst1': 2, 'rst2': 2, 'refused': 2, '1040': 1, 'blackhole': 1, 'err': 3, 'stall': 2, 'restart0': .5, 'restart1': .5}


class C10(Profile):
    nclients = (3, 7)
    nops = (2, 5)
    weights = [('select', 35), ('insert', 22), ('update', 12), ('delete', 6), ('join', 4), ('create', 6), ('drop', 6), ('sum', 9)]

    def op(self, r, g, tabs):
        if r.chance(.1):
            t = r.pick(tabs)
            return {'k': 'failing', 'srv': t.srv, 'db': t.db, 'nolin': True,
                    'sql': r.pick(['select nosuch from %s' % t.name, 'selec', 'select * from nosuch', 'insert into %s(nosuch) values(1)' % t.name,
                                   'update %s set nosuch=3' % t.name, 'select max(nosuch) from %s' % t.name])}
        if r.chance(.06):
            t = r.pick(tabs)
            d = dict(g.any([('select', 4), ('insert', 3), ('update', 2)], [t]), ep='enc0', k='convert', nolin=True)
            if r.chance(.5):
                d['ds'] = {'app': 1, 'db2': 2}[t.db]
            return d
        return g.any(self.weights)

    def work(self, r, p, g, tabs):
        many(self, r, p, g, tabs, .08)

    def ep(self, r, op):
        if op['k'] in ('failing', 'convert'):
            return op
        return Profile.ep(self, r, op)

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        if r.chance(.75):
            k = {x: v for x, v in FAULTS.items() if r.chance(.5)}
            p['faults'] = {'rate': r.pick([.02, .05, .12]), 'kinds': k or {'rst1': 1}, 'down': r.pick([50 * MS, 2 * SEC]),
                           'stall': r.pick([500 * MS, 9 * SEC, 14 * SEC])}
        if r.chance(.3):
            p['events'].append({'do': 'kill_idle', 'server': r.pick(['be0', 'be0', 'meta']), 'at': int(r.expo(20 * MS))})

    def finish(self, w):
        w.settle()
        w.check_idle()
        strict = not w.plan['faults'] and not w.plan['events']
        self.reads(w, w.plan['final'])
        w.lin_check(['C01' if strict else 'C02'], strict_errors=lambda r, rs: strict or r.tag.startswith('_'), end=w.tick())
        w.check_idle()


class C11(Profile):
    nclients = (3, 7)
    nops = (2, 5)
    weights = C10.weights
    op = C10.op
    ep = C10.ep
    work = C10.work

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        if r.chance(.85):
            k = {x: v for x, v in FAULTS.items() if r.chance(.5)}
            p['faults'] = {'rate': r.pick([.03, .1, .25]), 'kinds': k or {'rst1': 1}, 'down': r.pick([50 * MS, 2 * SEC, 30 * SEC]),
                           'stall': r.pick([500 * MS, 9 * SEC, 14 * SEC, 40 * SEC])}
        for _ in range(r.below(3)):
            d = r.pick(['kill_idle', 'restart', 'restart', 'skew'])
            e = {'do': d, 'server': r.pick(['be0', 'be0', 'meta']), 'at': int(r.expo(20 * MS))}
            if d == 'restart':
                e['down'] = r.pick([10 * MS, 1 * SEC, 60 * SEC])
            if d == 'skew':
                e['by'] = r.pick([-3600 * SEC, 3600 * SEC])
            p['events'].append(e)
        if r.chance(.06):
            p['burst'] = r.pick([12, 20, 30])
            p['peak'] = p['burst']
        if r.chance(.25):
            # malformed requests in between
            for c in p['clients']:
                if r.chance(.5):
                    path = r.pick(['/query', '/jdbc_query', '/create_table', '/encrypt_sql', '/encrypt_sql1', '/encrypt_sql2', '/decrypt_data', '/query_jar'])
                    body = r.pick(['', '{}', '[]', 'null', '{"query": 5}', '{"sqlQuery": "", "jdbcDataSourceId": 1, "ciphertext": false}',
                                   '{"sqlQuery": "select 1", "jdbcDataSourceId": 99, "ciphertext": false}', '{"db": "app", "sql": null}', 'not json',
                                   '{"query_id": [], "data": {"rows": 3}}', '{"db": [], "sql": "select * from tab0"}',
                                   '\xff\xfe', '[' * 5000, '{"host": "10.0.0.1", "port": "x", "db": "app", "user": "u", "password": "p", "query": "select * from tab0"}',
                                   '{"host": null, "port": 3306, "db": "app", "user": null, "password": [], "query": "select * from tab0"}',
                                   'db=app&query=select', 'query=%00&db=%ff&user=&password=', '{"sql": "%s", "db": "app"}' % ('(' * 3000),
                                   '{"sqlQuery": "select * from tab0 limit 1", "jdbcDataSourceId": "1 or 1=1", "ciphertext": 1}',
                                   '{"query_id": "x"}', '{"query_id": null, "data": null}', '{"db": "app"}', '{"sql": {"select": "*"}, "db": "app"}'])
                    if r.chance(.15):
                        path = r.pick(['/rewrite_query', '/jdbc_query/schema/', '/jdbc_query/component/', '/jdbc_query/component/1', '/', '/nosuch', '/query/'])
                    c.insert(r.below(len(c) + 1), {'k': 'malformed', 'ep': 'raw', 'path': path, 'body': body})
                    if r.chance(.2):
                        c.insert(r.below(len(c) + 1), {'k': 'malformed', 'ep': 'raw', 'path': path, 'body': '', 'method': r.pick(['GET', 'OPTIONS', 'PUT', 'HEAD'])})

    def finish(self, w):
        k = w.k
        for r in w.history:
            if r.lost:
                w.bad('C11', 'no answer', repr(r))
                return
            if r.stub.twice or r.stub.finished != 1 or r.ans['code'] is None:
                w.bad('C11', 'not one answer', '%r finished %d times' % (r, r.stub.finished))
                return
        w.settle()
        g = w.plan
        self.probe(w)
        w.check_idle()

    def probe(self, w):
        """Every kind of request works again, at the first attempt."""
        k = w.k
        n = 0
        for i, ops in enumerate(w.plan['again']):
            create, insert, read, drop = ops[0], ops[1], ops[2], ops[3]
            name = 'probe%d' % i
            old = create['t'][0]

            def ren(op):
                q = dict(op)
                q['t'] = [name]
                q['sql'] = op['sql'].replace(old, name)
                q['nolin'] = True
                q.pop('ep', None)
                return q
            ds = [d[0] for d in w.plan['ds'] if d[1].endswith('/' + read['db'])][0]
            conv = [dict(ren(read), k='convert', **x) for x in ({'ep': 'enc0'}, {'ep': 'enc0', 'ds': ds}, {'ep': 'enc1'}, {'ep': 'enc2'})]
            for op in [ren(create), ren(insert), ren(read), dict(ren(read), ep='jdbc', ds=ds), dict(ren(read), ep='jar')] + conv + [ren(drop)]:
                n += 1
                r = w.request(op, '_p%d' % n)
                if not r.ok:
                    w.bad('C11', 'no recovery', '%r fails %d s after the last fault: %s' % (r, 70, r.ans))
                    return
                if op['k'] == 'convert':
                    x = r.ans['json'].get('encrypt_sql') if isinstance(r.ans['json'], dict) else None
                    if not x or name in x:
                        w.bad('C11', 'no recovery', '%r answers %s' % (r, r.ans['json']))
                        return
                if op['k'] == 'select' and len(r.ans['rows'] or []) != 1:
                    w.bad(('C11', 'C01'), 'no recovery', '%r answers %s' % (r, r.ans['rows']))
                    return
        if w.plan.get('burst') and w.k.end is None:
            self.burst(w)
        w.lin_check(['C02'], strict_errors=False, end=w.tick())

    def burst(self, w):
        """Many requests at once, as many as the workload had or more, all succeed."""
        k = w.k
        recs = []
        for i in range(w.plan['burst']):
            op = dict(w.plan['final'][i % len(w.plan['final'])], nolin=True)
            op.pop('ep', None)
            t = k.spawn('_burst%d' % i, lambda op=op, i=i: recs.append(w.request(op, '_b%d' % i)))
            k.sleep(0)
        n = 0
        while len(recs) < w.plan['burst'] and n < 100000 and k.end is None:
            k.sleep(10 * MS)
            n += 1
        k.stat('requests sent at once after the faults', w.plan['burst'])
        exists = {}
        for r in sorted(recs, key=lambda r: r.tag):
            key = (r.op['db'], r.op['t'][0])
            exists.setdefault(key, []).append(r)
        for rs in exists.values():
            good = [r for r in rs if r.ok]
            if good and len(good) < len(rs):
                r = [r for r in rs if not r.ok][0]
                w.bad('C11', 'no recovery', '%r is refused long after the last fault, as one of %d requests at once: %s' % (r, w.plan['burst'], r.ans))
                return


class C12(Profile):
    """Bulk loads."""
    nclients = (1, 3)

    def fill(self, r, p, phase):
        tabs = []
        for i in range(r.between(1, 2)):
            tabs.append(wl.table(r, 'tab%d' % i, kinds=r.sample(['str', 'fuz', 'int', 'sum', 'flo', 'pstr', 'pint', 'dbl', 'pdbl', 'chr'], r.between(2, 4)),
                                 n=0, pk=r.chance(.2)))
        g = wl.Gen(r, tabs)
        p['files'] = {}
        p['file_faults'] = {}
        p['chunk'] = r.pick([None, 1, 2, 3, 5])
        for t in tabs:
            p['setup'].append(g.create(t))
            for _ in range(r.between(0, 2)):
                p['setup'].append(g.insert(t))
        nf = 0
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(1, 3)):
                t = r.pick(tabs)
                if r.chance(.6):
                    ops.append(self.load(r, p, t, nf))
                    nf += 1
                else:
                    ops.append(g.any([('insert', 6), ('select', 4)], [t]))
                ops[-1]['pre'] = self.pause(r)
            p['clients'].append(ops)
        if not nf:
            p['clients'].append([self.load(r, p, r.pick(tabs), 0)])
        if r.chance(.65):
            k = {x: v for x, v in {'rst0': 2, 'rst1': 2, 'rst2': 2, 'refused': 1, 'err': 3, 'restart1': .5, 'restart0': .5, 'stall': .5}.items() if r.chance(.55)}
            p['faults'] = {'rate': r.pick([.02, .05, .1]), 'kinds': k or {'rst1': 1}, 'stall': r.pick([1 * SEC, 13 * SEC]), 'down': 500 * MS}
        most = max([len(o['rows']) for c in p['clients'] for o in c if o['k'] == 'batch'])
        if p['faults'] and most > 100:
            p['faults']['rate'] = r.pick([.5, 1, 2]) / most
        if r.chance(.15):
            p['events'].append({'do': 'crash', 'tag': 'c0.0', 'n': r.between(2, 30), 'after': r.pick([0, 200 * US]), 'down': 50 * MS})
        p['tables'] = [t.spec() for t in tabs]
        p['final'] = [g.all_of(t) for t in tabs]

    def load(self, r, p, t, nf):
        path = 'load%d.csv' % nf
        cols = r.shuffle(t.names()) if r.chance(.3) else t.names()
        rows = []
        n = r.between(1, 9) if r.chance(.92) else r.pick([150, 600, 1100, 2100])
        if n > 100 and r.chance(.7):
            p['chunk'] = None           # as it is shipped, all of it in one chunk
        for _ in range(n):
            t.nid += 1
            rows.append([t.nid if c == 'id' else self.cell(r, t.col(c)) for c in cols])
        unfit = None
        if r.chance(.2 if n < 100 else .4):
            # a row the back end refuses
            i = r.below(n) if n < 100 else r.between(n * 9 // 10, n - 1)
            plain = [j for j, c in enumerate(cols) if not t.col(c)['enc'] and t.col(c)['type'] in ('int', 'varchar', 'char') and c != 'id']
            if t.pk and i and r.chance(.6):
                rows[i][cols.index('id')] = rows[r.below(i)][cols.index('id')]
                unfit = 'key'
            elif plain:
                j = r.pick(plain)
                c = t.col(cols[j])
                rows[i][j] = r.pick([99999999999, 'abc', '']) if c['type'] == 'int' else 'W' * (c['len'] + r.pick([1, 1, 30]))
                unfit = 'value'
        p['files'][path] = ''.join(','.join(wl.quote(v) for v in row) + '\n' for row in rows)
        if r.chance(.12):
            p['file_faults'][path] = r.below(len(rows) + 1)
        return {'k': 'batch', 't': [t.name], 'srv': 0, 'db': t.db, 'sql': '', 'nolin': True, 'rows': rows, 'cols': cols, 'path': path, 'unfit': unfit,
                'batch': {'columns': cols, 'table': t.name, 'input': path}}

    def cell(self, r, c):
        if c['type'] in ('varchar', 'char') and not c['fuzzy'] and r.chance(.4):
            return r.pick(['007', '1e5', '12.50', 'True', 'NA', 'null', 'nan', 'N/A', '-0', '1', '2021-01-02', ' lead', 'a,b', 'q"q', "it's", '%s', '100%', '\\n'])
        if c['fuzzy'] and r.chance(.3):
            return r.pick(['007', '1e5', 'True', 'nan', 'NA1', '12345'])
        return wl.value(r, c)

    def finish(self, w):
        w.settle()
        reads = self.reads(w, w.plan['final'])
        for op, rec in zip(w.plan['final'], reads):
            if not rec.ok:
                w.bad(('C12', 'C11'), 'unreadable', repr(rec))
                return
            t = [t for t in w.plan['tables'] if t['name'] == op['t'][0]][0]
            self.judge(w, t, op, rec.ans['rows'])
        w.check_idle()

    def judge(self, w, t, op, rows):
        names = [c['name'] for c in t['cols']]
        by = {}
        for row in rows:
            by.setdefault(row[names.index('id')], []).append(row)
        known = set()
        recs = [r for r in w.history if r.op.get('t') == [t['name']]]
        for r in recs:
            if r.op['k'] == 'batch':
                if r.op.get('unfit'):
                    w.k.stat('loads of a row the back end refuses')
                    if r.ok:
                        w.bad('C12', 'unfit row', '%s answered success, the back end refuses a row of it: %s' % (r, r.op['rows']))
                        return
                dup = r.op.get('unfit') == 'key'
                self.chunks(w, r, by, t)
                for row in r.op['rows']:
                    if dup and [x[r.op['cols'].index('id')] for x in r.op['rows']].count(row[r.op['cols'].index('id')]) > 1:
                        known.add(row[r.op['cols'].index('id')])
                        continue
                    full = dict(zip(r.op['cols'], row))
                    self.row(w, r, names, full, by.get(full['id'], []), t)
                    known.add(full['id'])
            elif r.op['k'] == 'insert':
                known.add(r.op['rowid'])
                n = len(by.get(r.op['rowid'], []))
                if r.ok and n != 1 or n > 1:
                    w.bad('C12', 'other rows changed', '%s: present %d times' % (wd.describe(r), n))
        for i in by:
            if i not in known:
                w.bad('C12', 'foreign row', 'id %r of %s was never written' % (i, t['name']))

    def chunks(self, w, r, by, t):
        """The rows of a chunk are there together or not at all, and no chunk is without those before it."""
        ids = [row[r.op['cols'].index('id')] for row in r.op['rows']]
        size = w.plan['chunk'] or 20000
        before = True
        for i in range(0, len(ids), size):
            part = [x for x in ids[i:i + size] if ids.count(x) == 1] if r.op.get('unfit') == 'key' else ids[i:i + size]
            got = [x for x in part if x in by]
            if not part:
                continue
            if len(got) not in (0, len(part)) or got and not before:
                w.bad('C12', 'part of a chunk', '%s: of the rows %d to %d %d are present, of those before them %s' % (
                    r, i, i + size, len(got), 'all' if before else 'not all'))
                return
            before = bool(got)
            w.k.stat('loaded chunks checked')

    def row(self, w, r, names, full, got, t):
        if len(got) > 1:
            w.bad('C12', 'row twice', '%s: row %s is present %d times' % (r, full, len(got)))
        if r.ok and len(got) != 1:
            w.bad('C12', 'row missing', '%s answered success, row %s is missing' % (r, full))
        w.k.stat('loaded rows checked')
        for g in got:
            want = [full.get(n) for n in names]
            for n, a, b in zip(names, g, want):
                if not close(a, b):
                    w.bad('C12', 'value altered', '%s: column %s of row %s reads back as %r' % (r, n, full, a))


def close(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(b, str) != isinstance(a, str):
        return False
    if isinstance(b, str):
        return a == b
    return abs(float(a) - float(b)) < 1e-9 * max(1, abs(float(b)))


class C13(Profile):
    nclients = (2, 5)
    nops = (2, 6)
    weights = [('sum', 50), ('insert', 22), ('update', 17), ('delete', 8), ('select', 5)]
    opt = {'nulls': True}
    big = .05

    def tables(self, r, p):
        out = []
        for i in range(r.between(1, 2)):
            ks = ['sum'] + (['sum'] if r.chance(.4) else []) + r.sample(['str', 'int', 'pint', 'fuz'], r.between(0, 2))
            out.append(wl.table(r, 'tab%d' % i, kinds=ks, n=0, db='app'))
        return out

    def fill(self, r, p, phase):
        Profile.fill(self, r, p, phase)
        if r.chance(.5):
            k = {x: v for x, v in {'rst0': 2, 'rst1': 2, 'rst2': 2, 'restart0': 1, 'restart1': 1, 'err': 1, 'refused': 1}.items() if r.chance(.6)}
            p['faults'] = {'rate': r.pick([.03, .08]), 'kinds': k or {'rst1': 1}, 'down': r.pick([1 * MS, 300 * MS])}
        if r.chance(.25):
            p['events'].append({'do': r.pick(['kill_idle', 'restart']), 'server': 'be0', 'at': int(r.expo(20 * MS)), 'down': 1 * MS})

    def finish(self, w):
        w.settle()
        end = w.tick()
        strict = not w.plan['faults'] and not w.plan['events']
        self.reads(w, w.plan['final'])
        w.lin_check(['C13'], strict_errors=lambda r, rs: strict or r.tag.startswith('_'), end=end)
        w.check_idle()


class C21(Profile):
    """One server answers nothing for a while; requests that do not need it are answered as fast as ever."""
    nclients = (2, 4)
    nops = (2, 6)
    LIMIT = 4 * SEC

    def fill(self, r, p, phase):
        be1 = {'name': 'be1', 'host': '10.0.0.2', 'port': 3306, 'dbs': ['app', 'db2'], 'users': [['u1', 'pw1', ['app', 'db2']], ['v1', 'pw2', ['app', 'db2']]]}
        be0 = copy.deepcopy(BE)
        be0['users'].append(['v1', 'pw2', ['app', 'db2']])
        p['servers'] = [be0, be1]
        p['ds'].append([3, 'jdbc:mysql://10.0.0.2:3306/db2', 'u1', 'pw1'])
        ill = p['ill'] = r.wpick([('be0', 4), ('meta', 1)])
        # (a table name says which server has it only together with its database)
        sums = r.chance(.3)
        sick = [wl.table(r, 'tab%d' % i, kinds=['sum'] if sums else None, n=r.between(1, 2), srv=0, db='app') for i in range(r.between(1, 2))]
        well = [wl.table(r, 'tab%d' % (i if r.chance(.5) else i + 2), kinds=['sum'] if sums else None, n=r.between(1, 3), srv=1, db='db2', pk=r.chance(.2)) for i in range(r.between(1, 2))]
        g = wl.Gen(r, sick + well)
        for t in sick + well:
            p['setup'].append(g.create(t))
            for _ in range(r.between(0, 3)):
                p['setup'].append(g.insert(t))
        if r.chance(.5):
            # connections that can be used again
            p['setup'] += [g.all_of(t) for t in well]
        start = r.pick([0, 0, 5 * MS, int(r.expo(20 * MS))])
        p['down'] = r.pick([25 * SEC, 70 * SEC, 200 * SEC])
        p['events'].append({'do': 'freeze', 'server': ill, 'at': start, 'down': p['down']})
        p['victims'] = []
        n = r.between(2, 5) if r.chance(.8) else r.between(12, 24)
        for c in range(n):
            ops = []
            for _ in range(r.between(1, 3)):
                ops.append(self.stuck(r, g, sick, well, ill))
            p['clients'].append(ops)
        for c in range(r.between(*self.nclients)):
            ops = []
            for _ in range(r.between(*self.nops)):
                p['victims'].append('c%d.%d' % (len(p['clients']), len(ops)))
                op = self.free(r, g, well, ill)
                op['pre'] = self.pause(r) if r.chance(.6) else int(r.expo(9 * SEC))
                ops.append(op)
            p['clients'].append(ops)
        p['peak'] = len(p['clients']) + 2
        p['tables'] = [t.spec() for t in sick + well]
        p['final'] = [g.all_of(t) for t in sick + well]
        p['again'] = []

    def account(self, r, op):
        if r.chance(.3):
            op['user'], op['pw'] = 'v1', 'pw2'
        return op

    def stuck(self, r, g, sick, well, ill):
        """A request that needs the server which does not answer."""
        if ill == 'meta':
            t = r.pick(well)
            op = g.any([('select', 5), ('insert', 1)], [t])
            if len(set(op.get('names') or ())) < len(op.get('names') or ()):
                op = g.all_of(t)
            op['ep'], op['ds'] = 'jdbc', 3
            return op
        op = g.any([('select', 40), ('sum', 12), ('insert', 25), ('update', 15), ('delete', 8), ('create', 6), ('drop', 6)], [r.pick(sick)])
        x = r.d.random()
        if x < .25 and not len(set(op.get('names') or ())) < len(op.get('names') or ()):
            op['ep'], op['ds'] = 'jdbc', 1
        elif x < .4 and op['k'] == 'select':
            op['ep'], op['ds'], op['k'] = 'enc0', 1, 'convert'
        elif x < .5:
            op['ep'] = 'jar'
        else:
            self.account(r, op)
        return op

    def free(self, r, g, well, ill):
        op = g.any([('select', 45), ('insert', 25), ('update', 15), ('delete', 8), ('join', 4), ('sum', 15)], [r.pick(well)])
        x = r.d.random()
        if x < .2 and ill != 'meta' and not len(set(op.get('names') or ())) < len(op.get('names') or ()):
            op['ep'], op['ds'] = 'jdbc', 3
        elif x < .35:
            op['ep'], op['k'] = r.pick(['enc0', 'enc1', 'enc2']), 'convert'
            if op['ep'] == 'enc0' and ill != 'meta' and r.chance(.5):
                op['ds'] = 3
        else:
            self.account(r, op)
        return op

    def finish(self, w):
        ids = set(w.plan['victims'])
        for r in w.history:
            if r.tag not in ids:
                continue
            w.k.stat('requests to other servers meanwhile')
            took = (r.t1 if r.done else w.k.now) - r.t0
            if took > self.LIMIT:
                w.bad('C21', 'delayed', '%r took %.1f s while %s did not answer, which it does not need' % (r, took / SEC, w.plan['ill']))
                return
            if not r.ok and r.op['k'] == 'convert':      # statements: below
                w.bad('C21', 'failed', '%r failed while %s did not answer, which it does not need: %s' % (r, w.plan['ill'], r.ans))
                return
        w.settle()
        end = w.tick()
        self.reads(w, w.plan['final'])
        w.lin_check(['C21', 'C01'], strict_errors=lambda r, rs: r.tag in ids, end=end)
        w.check_idle()


class Here:
    """A table that exists, in the model of the listing."""
    def key(self):
        return 'here'


HERE = Here()


class C22(C05):
    nclients = (2, 4)
    nops = (2, 6)
    weights = [('select', 8), ('insert', 12), ('create', 42), ('drop', 38)]

    def tables(self, r, p):
        n = r.between(1, 5)
        same = n > 1 and r.chance(.3)
        out = []
        for i in range(n):
            name, db = r.pick(['tab%d', 'tab%d', 'tab0%d', 'Tab%d', 'x%d', 'tab_%d']) % i, 'app' if r.chance(.75) else 'db2'
            if same and i < 2:
                name, db = 'tab0', ('app', 'db2')[i]
            out.append(wl.table(r, name, id_kind=r.wpick([('pint', 5), ('int', 2)]), db=db, pk=r.chance(self.pk)))
        return out

    def look(self, r):
        i = r.wpick([(0, 3), (1, 1)])
        return {'k': 'schema', 'ep': 'schema', 'method': 'GET', 'ds': i + 1, 'srv': 0, 'db': ('app', 'db2')[i]}

    def op(self, r, g, tabs):
        return C05.op(self, r, g, tabs) if r.chance(.65) else self.look(r)

    def ep(self, r, op):
        return op if op['k'] == 'schema' else C05.ep(self, r, op)

    def fill(self, r, p, phase):
        x = r.d.random()
        if x < .3:
            C05.fill(self, r, p, phase)
        else:
            Profile.fill(self, r, p, phase)
            if x < .6:
                k = {n: v for n, v in C06.kinds.items() if r.chance(.6)}
                p['faults'] = {'rate': r.pick([.03, .08, .2]), 'kinds': k or {'err': 1}, 'down': 300 * MS}
            if r.chance(.25):
                p['meta'] = 'sqlite'
        p['swap'] = r.chance(.3)        # in the end the data sources are defined the other way round
        p['look'] = [dict(self.look(r), ds=i + 1, db=('app', 'db2')[i ^ p['swap']]) for i in (0, 1)]

    def finish(self, w):
        w.settle()
        end = w.tick()
        if w.plan['swap']:
            (a, *x), (b, *y) = w.plan['ds']
            w.define(a, *y)
            w.define(b, *x)
        recs = self.reads(w, w.plan['look'], prefix='_l', tries=4)
        for rec in recs:
            if not rec.ok:
                w.bad('C22', 'no listing', '%r: nothing fails any more, yet data source %d is not listed' % (rec, rec.op['ds']))
        self.reads(w, w.plan['final'], tries=2)
        for db in sorted({t['db'] for t in w.plan['tables']} | {o['db'] for o in w.plan['look']}):
            self.judge(w, db, end)
        w.check_idle()

    def judge(self, w, db, end):
        tabs = {t['name']: t for t in w.plan['tables'] if t['db'] == db}
        es = []
        for rec in w.history:
            op = rec.op
            if op.get('db') != db or rec.inv is None:
                continue
            if op['k'] == 'schema':
                if not rec.ok:
                    continue
                try:
                    names = self.listed(rec, tabs)
                except ValueError as e:
                    w.bad('C22', 'bad listing', '%r of %s: %s: %s' % (rec, db, e, json.dumps(rec.ans['json'])[:600]))
                    return
                es.append(lin.Entry(rec.tag, rec.inv, rec.res, False, lambda st, n=names: st if {x for x in st if x[0] != '~'} == n else None,
                                    '%s lists %s' % (rec.tag, sorted(names))))
            elif op['k'] in ('create', 'drop'):
                name, add = op['t'][0], op['k'] == 'create'
                again = add and (op.get('ine') or op.get('ep') == 'create')
                back = '~' + rec.tag

                def step(st, name=name, add=add, again=again, ok=rec.ok, back='~' + rec.tag):
                    if (name in st) == add:
                        return st if again or not ok else None
                    st = dict(st)
                    if add:
                        st[name] = HERE
                    else:
                        del st[name]
                        if not ok:
                            st[back] = HERE
                    return st
                if not add and not rec.ok:
                    # refused by the back end when it had left the catalog: it comes back
                    def restore(st, name=name, back=back):
                        if back not in st or name in st:
                            return None
                        return dict({x: v for x, v in st.items() if x != back}, **{name: HERE})
                    es.append(lin.Entry('+' + rec.tag, rec.inv, end, True, restore, wd.describe(rec)))
                es.append(lin.Entry(rec.tag, rec.inv, rec.res if rec.ok else end, not rec.ok, step, wd.describe(rec)))
            elif rec.tag.startswith('_f'):
                es.append(lin.Entry(rec.tag, rec.inv, rec.res, False, lambda st, n=op['t'][0], ok=rec.ok: st if (n in st) == ok else None,
                                    '%s: %s can%s be queried' % (rec.tag, op['t'][0], '' if rec.ok else 'not')))
        try:
            best = lin.check(es, {})
        except lin.Limit:
            w.k.stat('histories too long to decide')
            return
        w.k.stat('histories checked')
        w.k.stat('requests in histories', len(es))
        if best is not None:
            w.bad('C22', 'wrong listing', 'database %s: after %s none of these fits: %s' % (db, list(best[1])[-6:], [str(x) for x in best[2]][:6]))

    def listed(self, rec, tabs):
        """The names of the listed tables; ValueError if one is listed twice, incompletely, or was never created."""
        out = set()
        j = rec.ans['json']
        if not isinstance(j, list):
            raise ValueError('no list')
        for e in j:
            name = e.get('name')
            if name in out:
                raise ValueError('%s is listed twice' % name)
            if name not in tabs:
                raise ValueError('%s was never created there' % name)
            out.add(name)
            exp = sorted(c['name'] + ' *' * bool(c['enc']) for c in tabs[name]['cols'])
            got = sorted(str(c.get('name')) for c in e['columns'])
            if got != exp:
                raise ValueError('the columns of %s are %s' % (name, exp))
            types = {c['name'] + ' *' * bool(c['enc']): c['type'] for c in tabs[name]['cols']}
            for c in e['columns']:
                t = types[c['name']]
                if c.get('javaType') != {'varchar': 'VARCHAR', 'int': 'INTEGER'}.get(t, c.get('javaType')):
                    raise ValueError('%s is of type %s' % (c['name'], t))
        return out


ALL = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C21, C22)}

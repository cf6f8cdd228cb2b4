"""Workloads: tables, statements and the values in them, all drawn from a seed."""
import re

from ..kernel import MS, SEC, US

WORDS = ['ann', 'bob7', 'carol', 'dave22', 'erin', 'frank', 'gus', 'heidi', 'ivan99', 'judy', 'kim', 'leo', '\u676d\u5dde\u5149\u4e4b\u6811']
ODD = ["it's ok", 'two words', 'a,b', 'x-y_z', '100%', 'semi;colon', '(par)', 'back`tick', 'UPPER', '007', 'NULL', 'select',
       'C:\\dir\\new', 'say "hi"', 'line\nbreak', "d'q", 'tab\there', '\\', "''", '%s', '{0}', 'Zo\u00eb', '\u6570\u636e',
       '\U0001f600', '-- no', '/* c */', '1e5', '-0', 'true', '', '$1', '@v', '?', '#x', '\\n', 'a=b&c', '<b>', ' lead']
# more characters than a block of the cipher, or more bytes than characters
WIDE = ['trail ', 'two  ', 'Ren\u00e9e \u00c9milie Zo\u00eb', '\u00e9' * 11, '\u676d\u5dde\u5e02\u897f\u6e56\u533a\u4e00\u53f7', '\u00e9\u00e8\u00ea\u00eb\u00e0\u00e2\u00e7\u00ef\u00ee\u00f4', 'ab\u00e9\u676d' * 4,
        'x' * 14 + '\u00e9', 'x' * 15 + '\u00e9', '\U0001f600' * 5]
FODD = ['two words', 'x-y_zz', 'UPPER', "it's ok", 'C:\\dir\\new', 'Zo\u00eb x', '100% x']
DAYS = ['2021-01-02', '2020-02-29', '1999-12-31', '2038-01-19', '2021-10-02']
MOMENTS = ['2021-01-02 03:04:05', '2020-02-29 00:00:00', '1999-12-31 23:59:59', '2038-01-20 10:20:30']
HKEYS = [[67108859, 67108837], [33554393, 33554383], [787659527, 1023624989]]


class R:
    """Convenience over a Draw."""

    def __init__(self, d):
        self.d = d

    def below(self, n):
        return self.d.below(n)

    def chance(self, p):
        return self.d.random() < p

    def pick(self, xs):
        return xs[self.d.below(len(xs))]

    def wpick(self, ws):
        tot = sum(w for _, w in ws)
        x = self.d.random() * tot
        for v, w in ws:
            x -= w
            if x < 0:
                return v
        return ws[-1][0]

    def between(self, a, b):
        return a + self.d.below(b - a + 1)

    def sample(self, xs, n):
        xs = list(xs)
        out = []
        while xs and len(out) < n:
            out.append(xs.pop(self.d.below(len(xs))))
        return out

    def shuffle(self, xs):
        return self.sample(xs, len(xs))

    def expo(self, m):
        return self.d.expo(m)


def lit(v):
    if v is None:
        return 'null'
    if isinstance(v, str):
        return "'" + v.replace("\\", "\\\\").replace("'", "''") + "'"
    return repr(v)


TOKEN = re.compile(r"""'(?:''|\\.|[^'\\])*'|"(?:""|\\.|[^"\\])*"|`[^`]*`|[A-Za-z_][\w.]*|\s+|.""", re.S)
KEYWORDS = {'select', 'distinct', 'from', 'where', 'and', 'or', 'not', 'in', 'is', 'null', 'between', 'like', 'order', 'group', 'by', 'asc',
            'desc', 'limit', 'offset', 'insert', 'into', 'values', 'update', 'set', 'delete', 'inner', 'left', 'right', 'join', 'on'}


def vary(r, sql, names):
    """The same statement written differently."""
    up, tick, ws, dq = r.chance(.5), r.chance(.3), r.chance(.4), r.chance(.25)
    out = []
    last = ''
    for m in TOKEN.finditer(sql):
        x = m.group()
        if not x.isspace():
            last = x.lower()
        if x.lower() in KEYWORDS:
            out.append(x.upper() if up else x.capitalize() if ws else x)
        elif tick and x in names:
            out.append('`' + x + '`')
        elif ws and x.isspace():
            # a comment inside a keyword of several words is not supported
            out.append(r.pick([' ', '  ', '\n', '\t'] if last in KEYWORDS else [' ', '  ', '\n', '\t', ' /* x */ ', ' -- it\'s\n'])
                       if r.chance(.5) else x)
        elif dq and len(x) > 1 and x[0] == "'":
            out.append('"' + x[1:-1].replace("''", "'").replace('"', '""') + '"')
        else:
            out.append(x)
    return ''.join(out) + (r.pick([';', ' ; ', '']) if ws else '')


class Tab:
    """A table specification (not its contents)."""

    def __init__(self, name, srv=0, db='app'):
        self.name = name
        self.srv = srv
        self.db = db
        self.cols = []          # dicts name,type,len,enc,fuzzy,arith,key,hk
        self.nid = 0
        self.pk = False
        self.pkc = False        # as a constraint

    def spec(self):
        return {'name': self.name, 'srv': self.srv, 'db': self.db, 'cols': self.cols, 'pk': self.pk}

    def col(self, name):
        for c in self.cols:
            if c['name'] == name:
                return c

    def names(self):
        return [c['name'] for c in self.cols]

    def types(self, names):
        return [self.col(n)['type'] for n in names]

    def create_sql(self, ine=False):
        parts = []
        for c in self.cols:
            s = c['name'] + ' ' + c['type'] + ('(%d)' % c['len'] if c['len'] else '') + c.get('args', '')
            if c.get('nn'):
                s += ' not null'
            if c.get('pk') and not self.pkc:
                s += ' primary key'
            if 'def' in c:
                s += ' default ' + lit(c['def'])
            parts.append(s)
        if self.pkc:
            parts.append('primary key (%s)' % ', '.join(c['name'] for c in self.cols if c.get('pk')))
        return 'create table %s%s(%s)' % ('if not exists ' if ine else '', self.name, ', '.join(parts))

    def enc(self):
        out = {}
        for c in self.cols:
            if c['enc']:
                e = {'fuzzy': bool(c['fuzzy']), 'key': c['key']}
                if c['arith']:
                    e['arithmetic'] = True
                    e['homomorphic_key'] = c['hk']
                out[c['name']] = e
        return out

    def form(self):
        """The same table for /create_table (no arithmetic, no key)."""
        out = []
        for c in self.cols:
            out.append({'name': c['name'], 'type': c['type'], 'length': str(c['len'] or 0),
                        'encryption': 'true' if c['enc'] else 'false', 'fuzzy': 'true' if c['fuzzy'] else 'false',
                        'token': c['key'] or ''})
        return out


def key(r, name):
    """Keys may differ a little only, or look odd."""
    x = r.d.random()
    if x < .7:
        return 'zkey' + name
    if x < .82:
        return r.pick(['zkeyofsomebody', 'ZKEYOFSOMEBODY', 'zKeyOfSomebody', 'zkeyofsomebody1'])
    if x < .92:
        return 'zkey0123456789abcdefghijklmnopqrstuvwxyz' + name
    return r.pick(["z'key\"%d\\", 'z密钥%d', 'z key %d ', 'zkey%d' + 90 * '+']) % r.below(3)


def column(r, name, kind, mark=''):
    enc = not kind.startswith('p')
    k = kind.lstrip('p')
    c = {'name': name, 'type': 'varchar', 'len': 0, 'enc': enc, 'fuzzy': False, 'arith': False,
         'key': key(r, mark + name) if enc else '', 'hk': None}
    if k in ('str', 'fuz'):
        c['len'] = r.pick([20, 30, 64])
        c['fuzzy'] = k == 'fuz'
    elif k == 'chr':
        c['type'], c['len'] = 'char', 24
    elif k == 'int':
        c['type'] = 'int'
    elif k == 'sum':
        c['type'], c['arith'], c['hk'] = 'int', True, r.pick(HKEYS)
    elif k == 'flo':
        c['type'] = 'float'
    elif k == 'dbl':
        c['type'] = 'double'
    elif k in MORE:
        c['type'], c['args'] = MORE[k]
    return c


# kinds of plain columns only
MORE = {'dat': ('date', ''), 'dtm': ('datetime', ''), 'txt': ('text', ''), 'dec': ('decimal', '(10,2)'), 'big': ('bigint', '')}


KINDS = [('str', 3), ('fuz', 3), ('int', 4), ('sum', 1.5), ('flo', 1), ('dbl', .7), ('chr', .7), ('pstr', 2), ('pint', 2),
         ('pdbl', .5), ('pchr', .3), ('pdat', .4), ('pdtm', .3), ('ptxt', .3), ('pdec', .4), ('pbig', .3)]


def table(r, name, kinds=None, n=None, srv=0, db='app', id_kind='pint', pk=False):
    t = Tab(name, srv, db)
    idc = column(r, 'id', id_kind, name)
    if pk:
        idc['pk'] = True
        t.pk = True
        t.pkc = r.chance(.4)
    t.cols.append(idc)
    ks = list(kinds) if kinds else []
    while len(ks) < (n if n is not None else r.between(2, 4)):
        ks.append(r.wpick(KINDS))
    base = {'str': 'name', 'fuz': 'addr', 'int': 'age', 'sum': 'sal', 'flo': 'rate', 'dbl': 'mass', 'chr': 'code',
            'pstr': 'city', 'pint': 'qty', 'pdbl': 'temp', 'pchr': 'flag', 'pdat': 'born', 'pdtm': 'seen', 'ptxt': 'note', 'pdec': 'cost',
            'pbig': 'total'}
    style = r.wpick([(0, 8), (1, 1), (2, 1)])
    if style == 1:
        base = {k: v.capitalize() for k, v in base.items()}
    elif style == 2:
        base.update(str='value', fuz='kind', int='type', sum='count', pstr='date', pint='level', chr='status')
    extras = r.chance(.2)
    used = {}
    for k in ks:
        b = base[k]
        used[b] = used.get(b, 0) + 1
        c = column(r, b + (str(used[b]) if used[b] > 1 else ''), k, name)
        t.cols.append(c)
        if extras:
            if r.chance(.2):
                c['nn'] = True
            if r.chance(.4) and k not in ('ptxt',):
                c['def'] = value(r, c, r.chance(.3) and not c.get('nn'))
    return t


def text(r, c):
    """A string of a column."""
    if c['fuzzy']:
        return r.pick(WORDS) if r.chance(.9) else r.pick(FODD)
    x = r.d.random()
    if x < .7:
        return r.pick(WORDS)
    if x < .9 or not c['len']:
        v = r.pick(ODD + WIDE)
        return v.strip() or 'x' if c['type'] == 'char' else v
    # as long as the column allows, or around the block size of the cipher
    n = r.pick([c['len'], c['len'], c['len'] - 1, 15, 16, 17])
    return ('L%d%s' % (n, 'abcdefghij' * 7))[:min(n, c['len'])]


def value(r, c, null=False):
    t = c['type']
    if null and r.chance(.5):
        return None
    if t == 'int':
        if c['arith']:
            return r.between(-9, 40) if r.chance(.8) else r.between(-2000000, 2000000)
        return r.between(-8, 12) if r.chance(.8) else r.pick([2147483647, -2147483648, 0, r.between(-2000000000, 2000000000)])
    if t in ('float', 'double'):
        return r.between(-40, 40) * 0.25 if r.chance(.8) else r.pick([0.1, -2.35, 1234.5, 0.0, 99.875, 3])
    if t == 'date':
        return r.pick(DAYS)
    if t == 'datetime':
        return r.pick(MOMENTS)
    if t == 'decimal':
        return r.pick([0, 1.25, -3.5, 99.99, 12345678.91, r.between(-500, 500) / 100])
    if t == 'bigint':
        return r.pick([r.between(-9, 9), 9223372036854775807, -9223372036854775808, 3000000000])
    return text(r, c)


def quote(v):
    s = str(v)
    if ',' in s or '"' in s or '\n' in s:
        return '"' + s.replace('"', '""') + '"'
    return s


class Gen:
    """Statements over a set of tables."""

    def __init__(self, r, tabs, opt=None):
        self.r = r
        self.tabs = tabs
        self.opt = opt or {}
        self.may = False

    def op(self, t, sql, **kw):
        if kw['k'] not in ('create', 'drop') and self.r.chance(self.opt.get('vary', .12)):
            sql = vary(self.r, sql, t.names() + [t.name])
        d = {'k': kw.pop('k'), 't': [t.name], 'sql': sql, 'srv': t.srv, 'db': t.db}
        d.update(kw)
        if self.may:
            d['may'] = True
            self.may = False
        return d

    def create(self, t, ine=False):
        return self.op(t, t.create_sql(ine), k='create', enc=t.enc(), form=t.form(), ine=ine,
                       simple=not (t.pk or any(c['arith'] or c.get('args') is not None or c.get('nn') or 'def' in c for c in t.cols)))

    def drop(self, t):
        return self.op(t, 'drop table %s' % t.name, k='drop')

    def insert(self, t, vals=None, full=False):
        r = self.r
        t.nid += 1
        row = {'id': t.nid}
        rest = [c for c in t.cols if c['name'] != 'id']
        use = rest if full or r.chance(.8) else r.sample(rest, r.between(1, len(rest)))
        for c in t.cols:
            if c in use:
                row[c['name']] = value(r, c)
        if vals:
            row.update(vals)
        cols = [c for c in t.names() if c in row]
        return self.op(t, 'insert into %s(%s) values(%s)' % (t.name, ', '.join(cols), ', '.join(lit(row[c]) for c in cols)),
                       k='insert', rowid=row['id'])

    def fill(self, p, t, n):
        """Many rows at once, by a bulk load."""
        rows = []
        for _ in range(n):
            t.nid += 1
            rows.append([t.nid if c['name'] == 'id' else value(self.r, c) for c in t.cols])
        path = 'fill%d.csv' % len(p.setdefault('files', {}))
        p['files'][path] = ''.join(','.join(quote(v) for v in row) + '\n' for row in rows)
        p.setdefault('chunk', None)
        p.setdefault('file_faults', {})
        return {'k': 'batch', 'fill': ['insert into %s(%s) values(%s)' % (t.name, ', '.join(t.names()), ', '.join(lit(v) for v in row)) for row in rows],
                't': [t.name], 'srv': t.srv, 'db': t.db, 'sql': '', 'batch': {'columns': t.names(), 'table': t.name, 'input': path}}

    def cond1(self, t):
        r = self.r
        c = r.pick(t.cols)
        n = c['name']
        if n == 'id' and t.nid:
            v = r.between(1, max(1, t.nid))
        else:
            v = value(r, c)
        if not c['enc'] and r.chance(.3):
            return self.plain_cond(t, c, v)
        if c['type'] in ('int', 'bigint') or not c['enc'] and c['type'] in ('date', 'datetime', 'decimal'):
            o = r.pick(['=', '=', '>', '<', '>=', '<=']) if n != 'id' else r.pick(['=', '=', '=', '>', '<='])
            return '%s%s%s' % (n, o if r.chance(.5) else ' ' + o + ' ', lit(v))
        if c['type'] in ('float', 'double'):
            return '%s=%s' % (n, lit(v))
        if c['fuzzy'] and r.chance(.5):
            w = r.pick([x for x in WORDS if len(x) >= 3])
            m = r.between(3, len(w))
            i = r.below(len(w) - m + 1)
            x = r.d.random()
            if self.opt.get('likes') and r.chance(.2):
                long = r.pick([y for y in WORDS if len(y) >= 6])
                j = r.between(3, len(long) - 3)
                short = w[i:i + r.between(1, 2)]
                may = r.chance(.6)     # words too short to be searched for: refused, or answered as they should be
                self.may = self.may or may
                if may:
                    return "%s like '%s'" % (n, r.pick(['%%%s%%', '%s%%', '%%%s', '%s']) % short)
                return "%s like '%s'" % (n, r.pick(['%', '%%', '%s%%%s' % (long[:j], long[j:]), '%%%s%%%s%%' % (long[:j], long[j:]),
                                                    '%s%%%s%%' % (long[:3], long[3:6])]))
            if x < .12:
                return "%s like '%s%%'" % (n, w[:m])
            if x < .24:
                return "%s like '%%%s'" % (n, w[-m:])
            if x < .3:
                return "%s like '%s'" % (n, w)
            return "%s like '%%%s%%'" % (n, w[i:i + m])
        return '%s = %s' % (n, lit(v))

    def plain_cond(self, t, c, v):
        """Conditions only a plain column can have."""
        r = self.r
        n = c['name']

        def other():
            return r.between(1, max(1, t.nid)) if n == 'id' else value(r, c)
        x = r.d.random()
        if x < .3:
            return '%s in (%s)' % (n, ', '.join(lit(y) for y in [v] + [other() for _ in range(r.below(3))]))
        if x < .5 and c['type'] not in ('varchar', 'char', 'text'):
            a, b = sorted([v, other()])
            return '%s between %s and %s' % (n, lit(a), lit(b))
        if x < .65:
            return n + r.pick([' is null', ' is not null'])
        if x < .8:
            return '%s %s %s' % (n, r.pick(['<>', '!=']), lit(v))
        if c['type'] in ('varchar', 'char', 'text'):
            w = r.pick(WORDS)
            return '%s like %s' % (n, lit(r.pick([w[:2] + '%', '%' + w[1:3] + '%', w[0] + '_' + w[2] + '%', w])))
        return 'not (%s = %s)' % (n, lit(v))

    def cond(self, t, deep=True):
        r = self.r
        a = self.cond1(t)
        x = r.d.random()
        if x < .65 or not deep:
            return a
        if x < .82:
            return '%s and %s' % (a, self.cond1(t))
        if x < .94:
            return '%s or %s' % (a, self.cond1(t))
        return '%s and (%s or %s)' % (a, self.cond1(t), self.cond1(t))

    def where(self, t, p=.75):
        return ' where ' + self.cond(t) if self.r.chance(p) else ''

    def update(self, t):
        r = self.r
        cs = [c for c in t.cols if c['name'] != 'id']
        cs = r.sample(cs, r.between(1, min(2, len(cs))))
        null = self.opt.get('nulls', True) and r.chance(.08)
        sets = ', '.join('%s=%s' % (c['name'], r.pick(['%s+1', '%s + 2', '%s-1', '%s*2']) % c['name']
                                    if c['type'] in ('int', 'bigint') and not c['enc'] and r.chance(.5) else lit(value(r, c, null))) for c in cs)
        return self.op(t, 'update %s set %s%s' % (t.name, sets, self.where(t, .9)), k='update')

    def delete(self, t):
        return self.op(t, 'delete from %s%s' % (t.name, self.where(t, .97)), k='delete')

    def select(self, t, plainly=False):
        r = self.r
        x = r.d.random()
        if plainly or x < .25:
            names = t.names()
            return self.op(t, 'select * from %s%s' % (t.name, self.where(t, .5)), k='select', names=names, types=t.types(names))
        if r.chance(self.opt.get('forms', .25)):
            return self.form(t)
        if x < .5:
            names = r.sample(t.names(), r.between(1, len(t.cols)))
            dist = r.chance(.15)
            return self.op(t, 'select %s%s from %s%s' % ('distinct ' if dist else '', ', '.join(names), t.name, self.where(t)),
                           k='select', names=names, types=t.types(names))
        if x < .66:
            oc = r.pick([c for c in t.cols if c['type'] == 'int' or not c['enc']])
            if oc['type'] not in ('int',):
                oc = t.cols[0]
            names = [oc['name']] + [n for n in t.names() if n != oc['name'] and r.chance(.5)]
            desc = r.chance(.5)
            lim = ''
            if oc['name'] == 'id' and not self.opt.get('dup_ids') and r.chance(.5):
                lim = ' limit %d' % r.between(1, 4)
            return self.op(t, 'select %s from %s%s order by %s%s%s' % (', '.join(names), t.name, self.where(t, .4), oc['name'],
                                                                     r.pick([' desc', ' DESC']) if desc else r.pick(['', ' asc']), lim),
                           k='select', names=names, types=t.types(names), order=[0, desc])
        if x < .76:
            return self.op(t, 'select count(*) from %s%s' % (t.name, self.where(t)), k='select', names=['count'], types=['int'])
        if x < .88:
            c = r.pick([c for c in t.cols if c['type'] == 'int'])
            return self.op(t, 'select %s(%s) from %s%s' % (r.pick(['max', 'min']), c['name'], t.name, self.where(t, .5)),
                           k='select', names=[c['name']], types=['int'])
        s = [c for c in t.cols if c['arith']]
        if s and x < .96:
            return self.sum(t, r.pick(s))
        names = r.sample(t.names(), r.between(1, len(t.cols)))
        return self.op(t, 'select %s from (select %s from %s%s) a' % (', '.join('a.' + n for n in names), ', '.join(t.names()),
                                                                    t.name, self.where(t)),
                       k='select', names=['a.' + n for n in names], types=t.types(names))

    def form(self, t):
        """Less usual selects."""
        r = self.r
        x = r.d.random()
        num = [c for c in t.cols if c['type'] in ('int', 'float', 'double', 'bigint')]
        plain = [c for c in t.cols if not c['enc'] and c['type'] != 'text']
        if x < .25:
            items, names, types = [], [], []
            for _ in range(r.between(1, 3)):
                y = r.d.random()
                if y < .5 or not plain:
                    c = r.pick(num)
                    items.append('%s(%s)' % (r.pick(['max', 'min']), c['name']))
                    names.append(c['name'])
                    types.append(c['type'])
                elif y < .65:
                    items.append('count(*)')
                    names.append('count')
                    types.append('int')
                elif y < .85:
                    c = r.pick(t.cols)
                    items.append('count(%s)' % c['name'])
                    names.append(c['name'])
                    types.append('int')
                else:
                    c = r.pick(plain)
                    items.append('%s(%s)' % (r.pick(['max', 'min']), c['name']))
                    names.append(c['name'])
                    types.append(c['type'])
            return self.op(t, 'select %s from %s%s' % (', '.join(items), t.name, self.where(t, .5)), k='select', names=names, types=types)
        if x < .42 and plain:
            cs = r.sample(plain, r.between(1, 2))
            items, names = [c['name'] for c in cs], [c['name'] for c in cs]
            types = [c['type'] for c in cs]
            if r.chance(.7):
                items.append('count(*)')
                names.append('count')
                types.append('int')
            if r.chance(.4):
                c = r.pick(num)
                items.append('max(%s)' % c['name'])
                names.append(c['name'])
                types.append(c['type'])
            return self.op(t, 'select %s from %s%s group by %s' % (', '.join(items), t.name, self.where(t, .4), ', '.join(c['name'] for c in cs)),
                           k='select', names=names, types=types)
        if x < .68:
            able = [c for c in t.cols if not c['enc'] and c['type'] != 'text' or c['enc'] and c['type'] in ('int', 'float', 'double')]
            cs = r.sample(able, r.between(1, 2))
            ds = [r.chance(.5) for _ in cs]
            lim = ''
            if not self.opt.get('dup_ids') and r.chance(.6):
                if t.cols[0] not in cs:
                    cs.append(t.cols[0])
                    ds.append(r.chance(.5))
                lim = r.pick([' limit %d' % r.between(1, 4), ' limit %d, %d' % (r.below(3), r.between(1, 3)),
                              ' limit %d offset %d' % (r.between(1, 3), r.below(3))])
            rest = [n for n in t.names() if n not in [c['name'] for c in cs] and r.chance(.5)]
            names = [c['name'] for c in cs] + rest
            return self.op(t, 'select %s from %s%s order by %s%s' % (
                ', '.join(names), t.name, self.where(t, .4), ', '.join(c['name'] + (' desc' if d else r.pick(['', ' asc'])) for c, d in zip(cs, ds)),
                lim), k='select', names=names, types=t.types(names), order=[[i, d] for i, d in enumerate(ds)])
        if x < .76:
            return self.op(t, 'select count(*) from (select %s from %s%s) a' % (', '.join(t.names()), t.name, self.where(t)), k='select',
                           names=['count'], types=['int'])
        if x < .84:
            names = r.sample(t.names(), r.between(1, len(t.cols)))
            return self.op(t, 'select %s from (select * from %s%s) as a' % (', '.join(names), t.name, self.where(t)), k='select', names=names,
                           types=t.types(names))
        if x < .9:
            n = r.pick(t.names())
            return self.op(t, 'select %s, %s from %s%s' % (n, n, t.name, self.where(t)), k='select', names=[n, n], types=t.types([n, n]))
        c = [c for c in t.cols if not c['enc'] and c['type'] == 'int']
        if c:
            c = r.pick(c)
            f = r.pick(['sum', 'avg'])
            return self.op(t, 'select %s(%s) from %s%s' % (f, c['name'], t.name, self.where(t, .6)), k='select', names=[c['name']], types=['int'])
        return self.select(t, True)

    def sum(self, t, c):
        r = self.r
        f = r.pick(['sum', 'avg'])
        return self.op(t, 'select %s(%s) from %s%s' % (f, c['name'], t.name, self.where(t, .4)), k='select', agg=f,
                       names=[c['name']], types=['int'])

    def join(self, a, b):
        r = self.r
        kind = r.pick(['inner join', 'left join', 'right join', 'join'])
        ca = ['%s.%s' % (a.name, c) for c in r.sample(a.names(), r.between(1, 2))]
        cb = ['%s.%s' % (b.name, c) for c in r.sample(b.names(), r.between(1, 2))]
        names = ca + cb
        key = 'id'
        both = [c['name'] for c in a.cols if not c['enc'] and c['type'] == 'int' and b.col(c['name']) and
                not b.col(c['name'])['enc'] and b.col(c['name'])['type'] == 'int']
        if not both:
            return None
        key = r.pick(both)
        x = r.d.random()
        if x < .15:
            d = self.op(a, 'select %s from %s, %s where %s.%s = %s.%s' % (', '.join(names), a.name, b.name, b.name, key, a.name, key), k='select',
                        names=names, types=a.types([x.split('.')[1] for x in ca]) + b.types([x.split('.')[1] for x in cb]))
            d['t'] = [a.name, b.name]
            return d
        if x < .3:
            names = ['%s.%s' % (t.name, n) for t in (a, b) for n in t.names()]
            d = self.op(a, 'select * from %s %s %s on %s.%s = %s.%s' % (a.name, kind, b.name, b.name, key, a.name, key), k='select',
                        names=names, types=a.types(a.names()) + b.types(b.names()))
            d['t'] = [a.name, b.name]
            return d
        d = self.op(a, 'select %s from %s %s %s on %s.%s = %s.%s' % (', '.join(names), a.name, kind, b.name, a.name, key, b.name, key),
                    k='select', names=names, types=a.types([x.split('.')[1] for x in ca]) + b.types([x.split('.')[1] for x in cb]))
        d['t'] = [a.name, b.name]
        return d

    def any(self, w=None, tabs=None):
        """One statement; w: weights of kinds."""
        r = self.r
        t = r.pick(tabs or self.tabs)
        kind = r.wpick(w or [('select', 45), ('insert', 25), ('update', 15), ('delete', 7), ('join', 4), ('create', 2), ('drop', 2)])
        if kind == 'join':
            o = [x for x in (tabs or self.tabs) if x is not t and x.srv == t.srv and x.db == t.db]
            d = self.join(t, r.pick(o)) if o else None
            return d or self.select(t)
        if kind == 'create':
            return self.create(t, r.chance(.4))
        if kind == 'sum':
            cs = [c for c in t.cols if c['arith']]
            return self.sum(t, r.pick(cs)) if cs else self.select(t)
        if kind == 'insert' and t.pk and t.nid and r.chance(self.opt.get('dup', 0)):
            return self.insert(t, {'id': r.between(1, t.nid)})
        return getattr(self, kind)(t)

    def all_of(self, t):
        names = t.names()
        return self.op(t, 'select * from %s' % t.name, k='select', names=names, types=t.types(names))

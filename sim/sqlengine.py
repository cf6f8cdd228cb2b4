"""A small MySQL: parser and evaluator for the statements the proxy sends, also used (on clear text) as reference model.

Tables are values: a statement maps a database (dict name -> Table) to a new one and a result, nothing is changed in place.
"""
import hashlib
import math
import re
from decimal import Decimal, localcontext, ROUND_HALF_UP
from functools import lru_cache


class SQLError(Exception):
    def __init__(self, errno, msg, state='HY000'):
        Exception.__init__(self, '%d: %s' % (errno, msg))
        self.errno = errno
        self.msg = msg
        self.state = state


# ---- lexer -------------------------------------------------------------------------------------------------------
TOKEN = re.compile(r"""
    (?P<ws>\s+|/\*.*?\*/|--[ ][^\n]*|\#[^\n]*)
  | (?P<num>\d+\.\d*(?:[eE][+-]?\d+)?|\.\d+(?:[eE][+-]?\d+)?|\d+[eE][+-]?\d+|\d+(?![A-Za-z0-9_$]))
  | (?P<str>'(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.|"")*")
  | (?P<bq>`[^`]+`)
  | (?P<var>@@?[A-Za-z_0-9$.]+)
  | (?P<id>[A-Za-z0-9_$\u0080-\uffff]+)
  | (?P<op>:=|<>|!=|>=|<=|\|\||&&|[-+*/%=<>(),.;!])
""", re.X | re.S)
ESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', 'b': '\b', 'Z': '\x1a'}


def unquote(s):
    q = s[0]
    s = s[1:-1].replace(q + q, q)
    return re.sub(r'\\(.)', lambda m: ESC.get(m.group(1), ('\\' + m.group(1)) if m.group(1) in '%_' else m.group(1)), s,
                  flags=re.S)


def lex(sql):
    out = []
    i = 0
    while i < len(sql):
        m = TOKEN.match(sql, i)
        if not m:
            raise SQLError(1064, 'You have an error in your SQL syntax near %r' % sql[i:i + 40], '42000')
        i = m.end()
        kind = m.lastgroup
        if kind == 'ws':
            continue
        t = m.group()
        if kind == 'str':
            out.append(('str', unquote(t)))
        elif kind == 'num':
            out.append(('num', int(t) if t.isdigit() else (float(t) if 'e' in t.lower() else Decimal(t))))
        elif kind == 'bq':
            out.append(('id', t[1:-1]))
        elif kind == 'var':
            out.append(('var', t))
        elif kind == 'id':
            out.append(('id', t) if not t.isdigit() else ('num', int(t)))
        else:
            out.append(('op', t))
    out.append(('end', ''))
    return out


# ---- parser ------------------------------------------------------------------------------------------------------
AGG = {'count', 'sum', 'avg', 'max', 'min', 'group_concat'}
CLAUSE = {'from', 'where', 'group', 'having', 'order', 'limit', 'on', 'join', 'inner', 'left', 'right', 'union', 'cross', 'outer',
          'set', 'values', 'as', 'and', 'or', 'not', 'desc', 'asc', 'for', 'like', 'in', 'between', 'is', 'offset', 'mod', 'div', 'lock', 'then', 'when', 'else', 'separator'}


class P:
    def __init__(self, sql):
        self.t = lex(sql)
        self.i = 0
        self.sql = sql

    def err(self):
        near = ' '.join(str(x[1]) for x in self.t[self.i:self.i + 5])
        raise SQLError(1064, "You have an error in your SQL syntax near '%s'" % near, '42000')

    def peek(self):
        return self.t[self.i]

    def kw(self, *words):
        """Accept a sequence of keywords."""
        for n, w in enumerate(words):
            k, v = self.t[min(self.i + n, len(self.t) - 1)]
            if k != 'id' or v.lower() != w:
                return False
        self.i += len(words)
        return True

    def is_kw(self, *alts):
        k, v = self.peek()
        return k == 'id' and v.lower() in alts

    def need(self, *words):
        if not self.kw(*words):
            self.err()

    def op(self, o):
        if self.peek() == ('op', o):
            self.i += 1
            return True
        return False

    def need_op(self, o):
        if not self.op(o):
            self.err()

    def ident(self):
        k, v = self.peek()
        if k != 'id':
            self.err()
        self.i += 1
        return v

    # -- expressions
    def expr(self):
        return self.assign()

    def assign(self):
        k, v = self.peek()
        if k == 'var' and self.t[self.i + 1] == ('op', ':='):
            self.i += 2
            return ('setvar', v[1:].lower(), self.assign())
        return self.or_()

    def or_(self):
        a = self.and_()
        while self.kw('or') or self.op('||'):
            a = ('or', a, self.and_())
        return a

    def and_(self):
        a = self.not_()
        while self.kw('and') or self.op('&&'):
            a = ('and', a, self.not_())
        return a

    def not_(self):
        if self.kw('not') or self.op('!'):
            return ('not', self.not_())
        return self.cmp()

    def cmp(self):
        a = self.add()
        while True:
            k, v = self.peek()
            if k == 'op' and v in ('=', '<>', '!=', '<', '<=', '>', '>='):
                self.i += 1
                a = ('cmp', '<>' if v == '!=' else v, a, self.add())
                continue
            neg = False
            save = self.i
            if self.kw('not'):
                neg = True
            if self.kw('like'):
                a = ('like', a, self.add())
            elif self.kw('between'):
                lo = self.add()
                self.need('and')
                a = ('and', ('cmp', '>=', a, lo), ('cmp', '<=', a, self.add()))
            elif self.kw('in'):
                self.need_op('(')
                if self.is_kw('select'):
                    a = ('insel', a, self.select())
                else:
                    items = [self.expr()]
                    while self.op(','):
                        items.append(self.expr())
                    a = ('in', a, tuple(items))
                self.need_op(')')
            elif not neg and self.kw('is'):
                n = self.kw('not')
                self.need('null')
                a = ('isnull', a)
                if n:
                    a = ('not', a)
            else:
                self.i = save
                return a
            if neg:
                a = ('not', a)

    def add(self):
        a = self.mul()
        while True:
            if self.op('+'):
                a = ('arith', '+', a, self.mul())
            elif self.op('-'):
                a = ('arith', '-', a, self.mul())
            else:
                return a

    def mul(self):
        a = self.unary()
        while True:
            k, v = self.peek()
            if k == 'op' and v in '*/%':
                self.i += 1
                a = ('arith', v, a, self.unary())
            elif self.kw('mod'):
                a = ('arith', '%', a, self.unary())
            elif self.kw('div'):
                a = ('arith', 'div', a, self.unary())
            else:
                return a

    def unary(self):
        if self.op('-'):
            return ('neg', self.unary())
        if self.op('+'):
            return self.unary()
        return self.atom()

    def atom(self):
        k, v = self.peek()
        if k == 'num' or k == 'str':
            self.i += 1
            return ('lit', v)
        if k == 'var':
            self.i += 1
            if v.startswith('@@'):
                return ('sysvar', v[2:].lower())
            return ('var', v[1:].lower())
        if self.op('('):
            if self.is_kw('select'):
                e = ('subsel', self.select())
            else:
                e = self.expr()
            self.need_op(')')
            return e
        if k != 'id':
            self.err()
        low = v.lower()
        nxt = self.t[self.i + 1]
        if low == 'null' and nxt != ('op', '.'):
            self.i += 1
            return ('lit', None)
        if low in ('true', 'false'):
            self.i += 1
            return ('lit', int(low == 'true'))
        if low == 'exists' and nxt == ('op', '('):
            self.i += 2
            e = ('exists', self.select())
            self.need_op(')')
            return e
        if low == 'case':
            self.i += 1
            subject = None if self.is_kw('when') else self.expr()
            arms, other = [], ('lit', None)
            while self.kw('when'):
                c = self.expr()
                self.need('then')
                arms.append((c if subject is None else ('cmp', '=', subject, c), self.expr()))
            if self.kw('else'):
                other = self.expr()
            self.need('end')
            for c, v in reversed(arms):
                other = ('fn', 'if', (c, v, other))
            return other
        if low == 'cast' and nxt == ('op', '('):
            self.i += 2
            e = self.expr()
            self.need('as')
            typ = self.ident().lower()
            while not self.op(')'):
                self.i += 1
            return ('fn', 'convert', (e, ('col', None, typ)))
        if nxt == ('op', '('):
            self.i += 2
            if low in AGG:
                dist = self.kw('distinct')
                if self.op('*'):
                    arg = None
                else:
                    arg = self.expr()
                self.need_op(')')
                return ('agg', low, arg, dist)
            args = []
            if not self.op(')'):
                args.append(self.expr())
                while self.op(','):
                    args.append(self.expr())
                self.need_op(')')
            return ('fn', low, tuple(args))
        if low in CLAUSE:
            self.err()
        self.i += 1
        if self.op('.'):
            if self.op('*'):
                return ('star', v)
            return ('col', v, self.ident())
        return ('col', None, v)

    # -- select
    def select(self):
        self.need('select')
        dist = self.kw('distinct')
        items = []
        while True:
            if self.op('*'):
                items.append((('star', None), None))
            else:
                start = self.i
                e = self.expr()
                text = ''.join(str(x[1]) for x in self.t[start:self.i])
                alias = None
                if self.kw('as'):
                    k, v = self.peek()
                    self.i += 1
                    alias = v
                elif self.peek()[0] in ('id',) and self.peek()[1].lower() not in CLAUSE:
                    alias = self.ident()
                items.append((e, alias or text))
            if not self.op(','):
                break
        frm, where, group, having, order, limit = None, None, None, None, None, None
        if self.kw('from'):
            frm = self.tables()
        if self.kw('where'):
            where = self.expr()
        if self.kw('group', 'by'):
            group = [self.expr()]
            while self.op(','):
                group.append(self.expr())
        if self.kw('having'):
            having = self.expr()
        if self.kw('order', 'by'):
            order = self.order()
        if self.kw('limit'):
            limit = self.limit()
        return ('select', dist, tuple(items), frm, where, tuple(group) if group else None, having,
                tuple(order) if order else None, limit)

    def limit(self):
        k, v = self.peek()
        if k != 'num':
            self.err()
        self.i += 1
        if self.op(','):
            k, w = self.peek()
            self.i += 1
            return (v, w)
        if self.kw('offset'):
            k, w = self.peek()
            self.i += 1
            return (w, v)
        return (0, v)

    def table(self):
        if self.op('('):
            s = self.select()
            self.need_op(')')
            self.kw('as')
            return ('sub', s, self.ident())
        n = self.ident()
        if self.op('.'):
            n = self.ident()
        alias = n
        if self.kw('as'):
            alias = self.ident()
        elif self.peek()[0] == 'id' and self.peek()[1].lower() not in CLAUSE:
            alias = self.ident()
        return ('table', n, alias)

    def tables(self):
        a = self.table()
        while True:
            if self.op(','):
                a = ('join', 'inner', a, self.table(), None)
                continue
            kind = None
            if self.kw('inner', 'join') or self.kw('join') or self.kw('cross', 'join'):
                kind = 'inner'
            elif self.kw('left', 'outer', 'join') or self.kw('left', 'join'):
                kind = 'left'
            elif self.kw('right', 'outer', 'join') or self.kw('right', 'join'):
                kind = 'right'
            if kind is None:
                return a
            b = self.table()
            on = None
            if self.kw('on'):
                on = self.expr()
            a = ('join', kind, a, b, on)

    # -- statements
    def statement(self):
        s = self.stmt()
        while self.op(';'):
            pass
        if self.peek()[0] != 'end':
            self.err()
        return s

    def stmt(self):
        if self.is_kw('select'):
            s = self.select()
            if not self.kw('for', 'update'):
                self.kw('lock', 'in', 'share', 'mode')
            return s
        if self.kw('insert'):
            mode = 'ignore' if self.kw('ignore') else None
            return self.insert(mode)
        if self.kw('replace'):
            return self.insert('replace')
        if self.kw('update'):
            ign = self.kw('ignore')
            t = self.table()
            self.need('set')
            sets = self.sets()
            where = self.expr() if self.kw('where') else None
            return ('update', t, tuple(sets), where, self.top())
        if self.kw('delete'):
            self.need('from')
            t = self.table()
            where = self.expr() if self.kw('where') else None
            return ('delete', t, where, self.top())
        if self.kw('truncate'):
            self.kw('table')
            return ('truncate', self.ident())
        if self.kw('create', 'table'):
            return self.create()
        if self.kw('drop', 'table'):
            ife = self.kw('if', 'exists')
            names = [self.ident()]
            while self.op(','):
                names.append(self.ident())
            return ('drop', tuple(names), ife)
        if self.kw('alter', 'table'):
            n = self.ident()
            self.i = len(self.t) - 1
            return ('alter', n)
        if self.kw('set'):
            if self.kw('names'):
                while self.peek()[0] != 'end' and self.peek() != ('op', ';'):
                    self.i += 1
                return ('nop', 'names')
            at = self.i
            scope = 'next'
            if self.kw('session') or self.kw('local'):
                scope = 'session'
            if self.kw('transaction'):
                level = None
                while True:
                    if self.kw('isolation', 'level'):
                        for lv in (('repeatable', 'read'), ('read', 'committed'), ('read', 'uncommitted'), ('serializable',)):
                            if self.kw(*lv):
                                level = '-'.join(lv)
                                break
                        else:
                            self.err()
                    elif not (self.kw('read', 'write') or self.kw('read', 'only')):
                        self.err()
                    if not self.op(','):
                        break
                return ('isolation', scope, level) if level else ('nop', 'transaction')
            self.i = at
            out = []
            while True:
                k, v = self.peek()
                if k == 'var':
                    self.i += 1
                    name = v
                else:
                    scope = ''
                    if self.kw('session') or self.kw('global') or self.kw('local'):
                        pass
                    name = '@@' + self.ident()
                if not self.op(':='):
                    self.need_op('=')
                if name.startswith('@@') and self.peek()[0] == 'id' and self.t[self.i + 1] != ('op', '('):
                    e = ('lit', self.ident())
                else:
                    e = self.expr()
                out.append((name.lower(), e))
                if not self.op(','):
                    break
            return ('set', tuple(out))
        if self.kw('do'):
            e = [self.expr()]
            while self.op(','):
                e.append(self.expr())
            return ('do', tuple(e))
        if self.kw('commit'):
            return ('commit',)
        if self.kw('rollback'):
            return ('rollback',)
        if self.kw('begin') or self.kw('start', 'transaction'):
            snap = self.kw('with', 'consistent', 'snapshot')
            self.i = len(self.t) - 1 if self.peek() != ('op', ';') else self.i
            return ('begin', bool(snap))
        if self.kw('show'):
            self.i = len(self.t) - 1
            return ('show',)
        self.err()

    def insert(self, mode):
        self.kw('into')
        t = self.ident()
        cols = None
        if self.kw('set'):
            sets = self.sets()
            return ('insert', t, tuple(c for c, _ in sets), (tuple(e for _, e in sets),), None, self.on_dup(mode))
        if self.op('('):
            cols = [self.ident()]
            while self.op(','):
                cols.append(self.ident())
            self.need_op(')')
        if self.is_kw('select'):
            return ('insert', t, tuple(cols) if cols else None, None, self.select(), self.on_dup(mode))
        if not self.kw('values'):
            self.need('value')
        rows = []
        while True:
            self.need_op('(')
            r = [self.expr()]
            while self.op(','):
                r.append(self.expr())
            self.need_op(')')
            rows.append(tuple(r))
            if not self.op(','):
                break
        return ('insert', t, tuple(cols) if cols else None, tuple(rows), None, self.on_dup(mode))

    def on_dup(self, mode):
        if self.kw('on', 'duplicate', 'key', 'update'):
            return ('update', tuple(self.sets()))
        return mode

    def sets(self):
        sets = []
        while True:
            c = self.ident()
            if self.op('.'):
                c = self.ident()
            self.need_op('=')
            sets.append((c, self.expr()))
            if not self.op(','):
                return sets

    def top(self):
        """ORDER BY and LIMIT of an update or delete."""
        order = self.order() if self.kw('order', 'by') else None
        limit = self.limit() if self.kw('limit') else None
        return (order, limit[1]) if limit else None

    def order(self):
        order = []
        while True:
            e = self.expr()
            d = self.kw('desc')
            if not d:
                self.kw('asc')
            order.append((e, d))
            if not self.op(','):
                return tuple(order)

    def create(self):
        ine = self.kw('if', 'not', 'exists')
        n = self.ident()
        self.need_op('(')
        cols = []
        while True:
            if self.is_kw('primary', 'key', 'index', 'unique', 'constraint', 'foreign'):
                depth = 0
                pk = None
                if self.kw('primary', 'key'):
                    self.need_op('(')
                    pk = [self.ident()]
                    while self.op(','):
                        pk.append(self.ident())
                    self.need_op(')')
                    for i, c in enumerate(cols):
                        if c[0].lower() in [x.lower() for x in pk]:
                            cols[i] = (c[0], c[1], True, True, c[4], len(pk) == 1, c[6])
                else:
                    while True:
                        if self.peek()[0] == 'end':
                            self.err()
                        if self.op('('):
                            depth += 1
                        elif depth and self.op(')'):
                            depth -= 1
                        elif not depth and self.peek() in (('op', ','), ('op', ')')):
                            break
                        else:
                            self.i += 1
            else:
                c = self.ident()
                typ = self.ident().lower()
                args = []
                if self.op('('):
                    while not self.op(')'):
                        k, v = self.peek()
                        if k == 'num':
                            args.append(v)
                        self.i += 1
                nn = pk = auto = False
                default = None
                while self.peek() not in (('op', ','), ('op', ')')):
                    if self.kw('not', 'null'):
                        nn = True
                    elif self.kw('null'):
                        pass
                    elif self.kw('primary', 'key'):
                        pk = nn = True
                    elif self.kw('default'):
                        e = self.unary()
                        default = e[1] if e[0] == 'lit' else -e[1][1] if e[0] == 'neg' and e[1][0] == 'lit' and e[1][1] is not None else self.err()
                    elif self.kw('comment') or self.kw('collate') or self.kw('character', 'set'):
                        self.i += 1
                    elif self.kw('auto_increment'):
                        auto = True
                    elif not (self.kw('unique') or self.kw('key') or self.kw('unsigned')):
                        self.err()
                cols.append((c, mktype(typ, args), nn, nn or pk, default, pk, auto))
            if not self.op(','):
                break
        self.need_op(')')
        while self.peek()[0] != 'end' and self.peek() != ('op', ';'):
            self.i += 1
        return ('create', n, tuple(cols), ine)


def mktype(t, args):
    if t in ('int', 'integer', 'tinyint', 'smallint', 'mediumint', 'bigint'):
        bits = {'tinyint': 8, 'smallint': 16, 'mediumint': 24, 'bigint': 64}.get(t, 32)
        return ('int', bits)
    if t in ('varchar', 'char', 'text', 'longtext', 'json'):
        return ('str', args[0] if args else (1 if t == 'char' else 65535))
    if t in ('decimal', 'numeric'):
        p = args[0] if args else 10
        s = args[1] if len(args) > 1 else 0
        if p > 65:
            raise SQLError(1426, "Too-big precision %d specified. Maximum is 65." % p, '42000')
        return ('dec', p, s)
    if t == 'float':
        return ('float',)
    if t in ('double', 'real'):
        return ('double',)
    if t == 'date':
        return ('date',)
    if t in ('datetime', 'timestamp'):
        return ('datetime',)
    raise SQLError(1064, 'unknown type ' + t, '42000')


@lru_cache(maxsize=20000)
def parse(sql):
    return P(sql).statement()


# ---- data --------------------------------------------------------------------------------------------------------
class Table:
    __slots__ = ('name', 'cols', 'index', 'rows', 'next', 'uid', '_hash')

    def __init__(self, name, cols, rows=None, nxt=1, uid=0):
        self.name = name
        self.cols = cols
        self.index = {c[0].lower(): i for i, c in enumerate(cols)}
        self.rows = {} if rows is None else rows
        self.next = nxt
        self.uid = uid
        self._hash = None

    def with_rows(self, rows, nxt=None):
        t = Table.__new__(Table)
        t.name, t.cols, t.index, t.uid = self.name, self.cols, self.index, self.uid
        t.rows = rows
        t.next = self.next if nxt is None else nxt
        t._hash = None
        return t

    def key(self):
        """The contents as a value (row order does not count)."""
        if self._hash is None:
            self._hash = (self.cols, tuple(sorted(self.rows.values(), key=repr)))
        return self._hash


class Date(str):
    """The value of a DATE column."""
    __slots__ = ()


class DateTime(str):
    """The value of a DATETIME or TIMESTAMP column."""
    __slots__ = ()


NUM = re.compile(r'\s*[-+]?(\d+(\.\d*)?|\.\d+)\Z')
DATE = re.compile(r'(\d{4}-\d\d-\d\d)(?:[ T](\d\d:\d\d:\d\d))?\Z')


def get(db, name):
    t = db.get(name)
    if t is None:
        raise SQLError(1146, "Table '%s' doesn't exist" % name, '42S02')
    return t


def store(v, col, lenient=False):
    """Convert a value for a column as MySQL does in strict mode, or in its absence."""
    if not lenient:
        return store_strict(v, col)
    try:
        return store_strict(v, col)
    except SQLError as e:
        k = col[1][0]
        if e.errno == 1048:
            return implicit(col)
        if k == 'str':
            return text(v)[:col[1][1]]
        if k in ('date', 'datetime'):
            return implicit(col)
        x = num(v)
        if k == 'int':
            lim = 1 << (col[1][1] - 1)
            return max(-lim, min(lim - 1, int(x)))
        if k == 'dec':
            if e.errno == 1366:
                return store_strict(x, col)
            m = Decimal('9' * (col[1][1] - col[1][2]) + ('.' + '9' * col[1][2] if col[1][2] else ''))
            return m if x > 0 else -m
        if k == 'float' and e.errno == 1264:
            return 3.40282e38 if x > 0 else -3.40282e38
        return store_strict(x, col)


def implicit(col):
    """The value of a NOT NULL column without a default when errors are only warnings."""
    k = col[1][0]
    return {'str': '', 'date': Date('0000-00-00'), 'datetime': DateTime('0000-00-00 00:00:00')}.get(k, 0)


def store_strict(v, col):
    name, typ, nn = col[0], col[1], col[2]
    if v is None:
        if nn:
            raise SQLError(1048, "Column '%s' cannot be null" % name, '23000')
        return None
    k = typ[0]
    if k == 'int':
        if isinstance(v, str):
            try:
                v = Decimal(v.strip())
            except Exception:
                raise SQLError(1366, "Incorrect integer value: '%s' for column '%s'" % (v, name))
        if isinstance(v, Decimal):
            v = int(v.quantize(Decimal(1), ROUND_HALF_UP))
        elif isinstance(v, float):
            v = int(round(v))
        lim = 1 << (typ[1] - 1)
        if not -lim <= v < lim:
            raise SQLError(1264, "Out of range value for column '%s'" % name, '22003')
        return int(v)
    if k == 'str':
        s = text(v)
        if len(s) > typ[1]:
            raise SQLError(1406, "Data too long for column '%s'" % name, '22001')
        return s
    if k == 'dec':
        try:
            d = Decimal(v.strip()) if isinstance(v, str) else Decimal(v if not isinstance(v, float) else repr(v))
        except Exception:
            raise SQLError(1366, "Incorrect decimal value: '%s' for column '%s'" % (v, name))
        with localcontext() as c:
            c.prec = 200
            d = d.quantize(Decimal(1).scaleb(-typ[2]), ROUND_HALF_UP)
            if len(d.as_tuple().digits) + d.as_tuple().exponent > typ[1] - typ[2]:
                raise SQLError(1264, "Out of range value for column '%s'" % name, '22003')
        return d
    if k in ('date', 'datetime'):
        m = DATE.match(text(v).strip())
        if not m:
            raise SQLError(1292, "Incorrect %s value: '%s' for column '%s'" % (k, v, name), '22007')
        if k == 'date':
            return Date(m.group(1))
        return DateTime('%s %s' % (m.group(1), m.group(2) or '00:00:00'))
    try:
        f = float(v)
    except ValueError:
        raise SQLError(1265, "Data truncated for column '%s'" % name, '01000')
    if k == 'float':
        import struct
        try:
            f = struct.unpack('f', struct.pack('f', f))[0]
        except OverflowError:
            raise SQLError(1264, "Out of range value for column '%s'" % name, '22003')
        f = float('%.6g' % f)
    return f


def text(v):
    if isinstance(v, bool):
        return str(int(v))
    if isinstance(v, Decimal):
        return format(v, 'f')
    if isinstance(v, float):
        if v == int(v) and abs(v) < 1e15:
            return str(int(v))
        return repr(v)
    return str(v)


def num(v):
    if isinstance(v, str):
        m = re.match(r'\s*[-+]?\d+(\.\d+)?([eE][-+]?\d+)?', v)
        return float(m.group()) if m else 0.0
    return v


def compare(a, b):
    """-1, 0, 1 or None."""
    if a is None or b is None:
        return None
    if isinstance(a, str) and isinstance(b, str):
        a, b = a.lower().rstrip(' '), b.lower().rstrip(' ')
    else:
        a, b = num(a), num(b)
        if isinstance(a, float) and isinstance(b, Decimal):
            b = float(b)
        elif isinstance(b, float) and isinstance(a, Decimal):
            a = float(a)
    return (a > b) - (a < b)


@lru_cache(maxsize=20000)
def like_re(p):
    out = ''
    i = 0
    while i < len(p):
        c = p[i]
        if c == '\\' and i + 1 < len(p):
            i += 1
            out += re.escape(p[i])
        elif c == '%':
            out += '.*'
        elif c == '_':
            out += '.'
        else:
            out += re.escape(c)
        i += 1
    return re.compile(out + r'\Z', re.S | re.I)


# ---- evaluation --------------------------------------------------------------------------------------------------
class Ctx:
    """What a statement can see: tables (through read), user variables."""

    def __init__(self, read, uservars=None, sysvars=None, strict=True):
        self.read = read
        self.vars = {} if uservars is None else uservars
        self.sysvars = {} if sysvars is None else sysvars
        self.strict = strict


class Env:
    __slots__ = ('scope', 'row', 'group', 'aliases', 'outer')

    def __init__(self, scope, row, group=None, aliases=None, outer=None):
        self.scope = scope      # list of (alias, {col: index}, colnames)
        self.row = row
        self.group = group
        self.aliases = aliases
        self.outer = outer


def lookup(env, tab, col):
    low = col.lower()
    hit = None
    base = 0
    for alias, index, cols in env.scope:
        if tab is None or alias.lower() == tab.lower():
            i = index.get(low)
            if i is not None:
                if hit is not None:
                    raise SQLError(1052, "Column '%s' is ambiguous" % col, '23000')
                hit = base + i
        base += len(cols)
    return hit


def ev(e, env, cx):
    k = e[0]
    if k == 'lit':
        return e[1]
    if k == 'col':
        if env is not None:
            i = lookup(env, e[1], e[2])
            if i is not None:
                return env.row[i] if env.row is not None else None
            if e[1] is None and env.aliases and e[2].lower() in env.aliases:
                return env.aliases[e[2].lower()]
            if env.outer is not None:
                return ev(e, env.outer, cx)
        raise SQLError(1054, "Unknown column '%s' in 'field list'" % ((e[1] + '.' if e[1] else '') + e[2]), '42S22')
    if k == 'cmp':
        c = compare(ev(e[2], env, cx), ev(e[3], env, cx))
        if c is None:
            return None
        o = e[1]
        return int({'=': c == 0, '<>': c != 0, '<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0}[o])
    if k == 'and':
        a = truth(ev(e[1], env, cx))
        if a is False:
            return 0
        b = truth(ev(e[2], env, cx))
        if b is False:
            return 0
        return None if a is None or b is None else 1
    if k == 'or':
        a = truth(ev(e[1], env, cx))
        if a:
            return 1
        b = truth(ev(e[2], env, cx))
        if b:
            return 1
        return None if a is None or b is None else 0
    if k == 'not':
        a = truth(ev(e[1], env, cx))
        return None if a is None else int(not a)
    if k == 'like':
        a, b = ev(e[1], env, cx), ev(e[2], env, cx)
        if a is None or b is None:
            return None
        return int(bool(like_re(text(b)).match(text(a))))
    if k == 'in':
        a = ev(e[1], env, cx)
        res = 0
        for x in e[2]:
            c = compare(a, ev(x, env, cx))
            if c == 0:
                return 1
            if c is None:
                res = None
        return res
    if k == 'insel':
        a = ev(e[1], env, cx)
        _, rows = run_select(e[2], cx, env)
        res = 0
        for r in rows:
            c = compare(a, r[0])
            if c == 0:
                return 1
            if c is None:
                res = None
        return res
    if k == 'isnull':
        return int(ev(e[1], env, cx) is None)
    if k == 'neg':
        v = ev(e[1], env, cx)
        return None if v is None else -num(v)
    if k == 'arith':
        return arith(e[1], ev(e[2], env, cx), ev(e[3], env, cx))
    if k == 'var':
        return cx.vars.get(e[1])
    if k == 'setvar':
        v = ev(e[2], env, cx)
        cx.vars[e[1]] = v
        return v
    if k == 'sysvar':
        n = e[1].split('.')[-1]
        return cx.sysvars.get(n)
    if k == 'agg':
        if env is None or env.group is None:
            raise SQLError(1111, 'Invalid use of group function')
        return aggregate(e, env, cx)
    if k == 'fn':
        return func(e[1], e[2], env, cx)
    if k == 'exists':
        return int(bool(run_select(e[1], cx, env)[1]))
    if k == 'subsel':
        cols, rows = run_select(e[1], cx, env)
        if len(cols) != 1:
            raise SQLError(1241, 'Operand should contain 1 column(s)', '21000')
        if len(rows) > 1:
            raise SQLError(1242, 'Subquery returns more than 1 row', '21000')
        return rows[0][0] if rows else None
    raise SQLError(1235, 'not supported: ' + k)


def truth(v):
    if v is None:
        return None
    return bool(num(v))


def arith(o, a, b):
    if a is None or b is None:
        return None
    a, b = num(a), num(b)
    if o == 'div':
        return None if b == 0 else int(a / b) if isinstance(a, float) or isinstance(b, float) else int(Decimal(a) / Decimal(b))
    if isinstance(a, float) or isinstance(b, float):
        a, b = float(a), float(b)
        if o == '+':
            return a + b
        if o == '-':
            return a - b
        if o == '*':
            return a * b
        if b == 0:
            return None
        return a / b if o == '/' else a - b * int(a / b)
    with localcontext() as c:
        c.prec = 200
        if o == '+':
            r = a + b
        elif o == '-':
            r = a - b
        elif o == '*':
            r = a * b
        else:
            if b == 0:
                return None
            if o == '/':
                a, b = Decimal(a), Decimal(b)
                sc = max(0, -a.as_tuple().exponent)
                r = (a / b).quantize(Decimal(1).scaleb(-(sc + 4)), ROUND_HALF_UP)
            else:
                r = abs(a) % abs(b)
                r = -r if a < 0 else r
        if isinstance(r, Decimal) and len(r.as_tuple().digits) > 81 or isinstance(r, int) and abs(r) >= 10 ** 81:
            raise SQLError(1690, 'DECIMAL value is out of range', '22003')
    return r


def aggregate(e, env, cx):
    name, arg, dist = e[1], e[2], e[3]
    if arg is None:
        return len(env.group)
    vals = []
    for r in env.group:
        v = ev(arg, Env(env.scope, r, None, None, env.outer), cx)
        if v is not None:
            vals.append(v)
    if dist:
        out = []
        for v in vals:
            if not any(compare(v, w) == 0 for w in out):
                out.append(v)
        vals = out
    if name == 'count':
        return len(vals)
    if not vals:
        return None
    if name in ('max', 'min'):
        best = vals[0]
        for v in vals[1:]:
            c = compare(v, best)
            if (c > 0) == (name == 'max') and c != 0:
                best = v
        return best
    if name == 'group_concat':
        return ','.join(text(v) for v in vals)
    vals = [num(v) for v in vals]
    if any(isinstance(v, float) for v in vals):
        s = 0.0
        for v in vals:
            s += float(v)
        return s if name == 'sum' else s / len(vals)
    s = Decimal(0)
    with localcontext() as c:
        c.prec = 200
        for v in vals:
            s += v
        if name == 'sum':
            return s
        sc = max(0, -s.as_tuple().exponent)
        return (s / len(vals)).quantize(Decimal(1).scaleb(-(sc + 4)), ROUND_HALF_UP)


def func(name, args, env, cx):
    if name == 'concat':
        vs = [ev(a, env, cx) for a in args]
        return None if any(v is None for v in vs) else ''.join(text(v) for v in vs)
    if name == 'ifnull':
        v = ev(args[0], env, cx)
        return ev(args[1], env, cx) if v is None else v
    if name == 'coalesce':
        for a in args:
            v = ev(a, env, cx)
            if v is not None:
                return v
        return None
    if name == 'mod':
        return arith('%', ev(args[0], env, cx), ev(args[1], env, cx))
    if name == 'if':
        return ev(args[1] if truth(ev(args[0], env, cx)) else args[2], env, cx)
    if name == 'convert':
        v = ev(args[0], env, cx)
        if v is None:
            return None
        typ = args[1][2].lower() if args[1][0] == 'col' else args[1][1]
        if typ in ('char', 'nchar', 'binary'):
            return text(v)
        if typ in ('signed', 'unsigned'):
            return int(Decimal(text(num(v))).quantize(Decimal(1), ROUND_HALF_UP))
        if typ in ('decimal', 'dec'):
            with localcontext() as c:
                c.prec = 200
                return Decimal(v) if isinstance(v, int) else Decimal(text(v)) if NUM.match(text(v)) else Decimal(0)
        if typ == 'double':
            return float(num(v))
        raise SQLError(1064, 'unknown type ' + typ, '42000')
    if name in ('abs', 'floor', 'ceil', 'ceiling', 'round', 'char_length', 'nullif', 'md5', 'hex', 'trim', 'power', 'pow', 'greatest', 'least'):
        vs = [ev(a, env, cx) for a in args]
        if name == 'nullif':
            return None if compare(vs[0], vs[1]) == 0 else vs[0]
        if any(v is None for v in vs):
            return None
        v = vs[0]
        if name == 'char_length':
            return len(text(v))
        if name == 'md5':
            return hashlib.md5(text(v).encode()).hexdigest()
        if name == 'hex':
            return '%X' % v if isinstance(v, int) else text(v).encode().hex().upper()
        if name == 'trim':
            return text(v).strip(' ')
        if name in ('greatest', 'least'):
            return (max if name == 'greatest' else min)(vs, key=num)
        v = num(v)
        if name == 'abs':
            return abs(v)
        if name in ('power', 'pow'):
            return float(v) ** float(num(vs[1]))
        if name == 'floor':
            return math.floor(v)
        if name in ('ceil', 'ceiling'):
            return math.ceil(v)
        d = int(vs[1]) if len(vs) > 1 else 0
        r = Decimal(text(v)).quantize(Decimal(1).scaleb(-d), ROUND_HALF_UP)
        return float(r) if isinstance(v, float) else int(r) if d <= 0 else r
    if name in ('upper', 'lower'):
        v = ev(args[0], env, cx)
        return None if v is None else getattr(text(v), name)()
    if name == 'length':
        v = ev(args[0], env, cx)
        return None if v is None else len(text(v).encode())
    if name in ('version', 'database', 'connection_id', 'now'):
        return cx.sysvars.get(name)
    if name == 'sleep':
        return 0
    raise SQLError(1305, 'FUNCTION %s does not exist' % name, '42000')


def tables_of(s):
    """Names of the base tables a statement touches."""
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if len(x) == 3 and x[0] == 'table':
                out.append(x[1])
            for y in x:
                walk(y)
    walk(s)
    if s[0] == 'insert':
        out.append(s[1])
    return out


def source(f, cx, outer):
    """Rows of a FROM clause: (scope, rows)."""
    if f[0] == 'table':
        t = cx.read(f[1])
        return [(f[2], t.index, [c[0] for c in t.cols])], list(t.rows.values())
    if f[0] == 'sub':
        cols, rows = run_select(f[1], cx, outer)
        return [(f[2], {c.lower(): i for i, c in enumerate(cols)}, cols)], rows
    _, kind, a, b, on = f
    sa, ra = source(a, cx, outer)
    sb, rb = source(b, cx, outer)
    scope = sa + sb
    names = [x[0].lower() for x in scope]
    if len(set(names)) != len(names):
        raise SQLError(1066, "Not unique table/alias: '%s'" % names[-1], '42000')
    na = sum(len(x[2]) for x in sa)
    nb = sum(len(x[2]) for x in sb)
    out = []
    if kind == 'right':
        for y in rb:
            hit = False
            for x in ra:
                if on is None or truth(ev(on, Env(scope, x + y, None, None, outer), cx)):
                    out.append(x + y)
                    hit = True
            if not hit:
                out.append((None,) * na + y)
        return scope, out
    for x in ra:
        hit = False
        for y in rb:
            if on is None or truth(ev(on, Env(scope, x + y, None, None, outer), cx)):
                out.append(x + y)
                hit = True
        if not hit and kind == 'left':
            out.append(x + (None,) * nb)
    if on is not None and not (ra and rb):
        ev(on, Env(scope, (None,) * (na + nb), None, None, outer), cx)     # names are resolved anyway
    return scope, out


def has_agg(e):
    if isinstance(e, tuple):
        if e and e[0] == 'agg':
            return True
        if e and e[0] == 'subsel':
            return False
        return any(has_agg(x) for x in e)
    return False


class Sort:
    __slots__ = ('v', 'd')

    def __init__(self, v, d):
        self.v, self.d = v, d

    def __lt__(self, o):
        a, b = self.v, o.v
        if self.d:
            a, b = b, a
        if a is None:
            return b is not None
        if b is None:
            return False
        return compare(a, b) < 0

    def __eq__(self, o):
        return not self < o and not o < self


def hashable(v):
    return v.lower() if isinstance(v, str) else v


def run_select(s, cx, outer=None):
    _, dist, items, frm, where, group, having, order, limit = s
    if frm is None:
        scope, rows = [], [()]
    else:
        scope, rows = source(frm, cx, outer)
    if where is not None:
        if not rows:
            check_names(where, scope, outer, cx)
        rows = [r for r in rows if truth(ev(where, Env(scope, r, None, None, outer), cx))]
    names = []
    exprs = []
    for e, label in items:
        if e[0] == 'star':
            base = 0
            hit = False
            for alias, index, cols in scope:
                if e[1] is None or alias.lower() == e[1].lower():
                    hit = True
                    for i, c in enumerate(cols):
                        names.append(c)
                        exprs.append(('at', base + i))
                base += len(cols)
            if not hit:
                raise SQLError(1051, "Unknown table '%s'" % e[1], '42S02')
        else:
            names.append(label if e[0] != 'col' or label != (e[1] or '') + '.' + e[2] else e[2])
            exprs.append(e)
    aggq = group is not None or any(has_agg(e) for e in exprs) or (having is not None and has_agg(having)) or \
        (order is not None and any(has_agg(o[0]) for o in order))
    out = []
    if aggq:
        if group is None:
            groups = [rows]
        else:
            d = {}
            for r in rows:
                key = tuple(hashable(ev(g, Env(scope, r, None, None, outer), cx)) for g in group)
                d.setdefault(key, []).append(r)
            groups = list(d.values())
        width = sum(len(x[2]) for x in scope)
        for g in groups:
            first = g[0] if g else (None,) * width
            env = Env(scope, first, g, None, outer)
            vals = tuple(first[e[1]] if e[0] == 'at' else ev(e, env, cx) for e in exprs)
            env.aliases = {n.lower(): v for n, v in zip(names, vals)}
            if having is not None and not truth(ev(having, env, cx)):
                continue
            out.append((vals, sort_key(order, env, cx)))
    else:
        for r in rows:
            env = Env(scope, r, None, None, outer)
            vals = tuple(r[e[1]] if e[0] == 'at' else ev(e, env, cx) for e in exprs)
            if order is not None or having is not None:
                env.aliases = {n.lower(): v for n, v in zip(names, vals)}
            if having is not None and not truth(ev(having, env, cx)):
                continue
            out.append((vals, sort_key(order, env, cx)))
        if not rows:
            width = sum(len(x[2]) for x in scope)
            for e in exprs:
                if e[0] != 'at':
                    check_names(e, scope, outer, cx)
            for o in order or ():
                if not (o[0][0] == 'col' and o[0][1] is None and o[0][2].lower() in [n.lower() for n in names]):
                    check_names(o[0], scope, outer, cx)
    if dist:
        seen = set()
        uniq = []
        for v, key in out:
            h = tuple(hashable(x) for x in v)
            if h not in seen:
                seen.add(h)
                uniq.append((v, key))
        out = uniq
    if order is not None:
        out.sort(key=lambda x: x[1])
    res = [v for v, _ in out]
    if limit is not None:
        res = res[limit[0]:limit[0] + limit[1]]
    return names, res


def check_names(e, scope, outer, cx):
    """Unknown columns are errors even when there is no row to evaluate."""
    if not isinstance(e, tuple) or not e:
        return
    if e[0] == 'col' and len(e) == 3:
        width = sum(len(x[2]) for x in scope)
        ev(e, Env(scope, (None,) * width, None, None, outer), cx)
        return
    if e[0] in ('subsel', 'insel', 'exists', 'lit'):
        return
    for x in e[1:]:
        check_names(x, scope, outer, cx)


def sort_key(order, env, cx):
    if order is None:
        return None
    return [Sort(ev(e, env, cx), d) for e, d in order]


# ---- writing statements: (db, statement) -> (new table, affected) ------------------------------------------------
def run_insert(t, s, cx):
    _, name, cols, rows, sel, mode = s
    lenient = mode == 'ignore' or not cx.strict
    count = 0
    idx = list(range(len(t.cols)))
    if cols is not None:
        idx = []
        for c in cols:
            i = t.index.get(c.lower())
            if i is None:
                raise SQLError(1054, "Unknown column '%s' in 'field list'" % c, '42S22')
            idx.append(i)
    if sel is not None:
        _, data = run_select(sel, cx)
    else:
        data = []
        for n, r in enumerate(rows):
            if len(r) != len(idx):
                raise SQLError(1136, "Column count doesn't match value count at row %d" % (n + 1), '21S01')
            data.append([ev(e, None, cx) for e in r])
    new = dict(t.rows)
    nxt = t.next
    uniq = [i for i, c in enumerate(t.cols) if c[5]]
    for r in data:
        full = [c[4] for c in t.cols]
        given = set()
        for i, v in zip(idx, r):
            if v is None and t.cols[i][2] and mode != 'ignore' and len(data) == 1:
                store(v, t.cols[i])
            full[i] = store(v, t.cols[i], lenient)
            given.add(i)
        for i, c in enumerate(t.cols):
            if i not in given:
                if c[6]:
                    full[i] = 1 + max([x[i] for x in new.values()] or [0])
                elif c[2] and full[i] is None:
                    if lenient:
                        full[i] = implicit(c)
                        continue
                    raise SQLError(1364, "Field '%s' doesn't have a default value" % c[0])
                elif full[i] is not None:
                    full[i] = store(full[i], c)
        clash = {rid: i for rid, x in new.items() for i in uniq if compare(x[i], full[i]) == 0}
        if clash and mode == 'ignore':
            continue
        if clash and mode == 'replace':
            for rid in clash:
                del new[rid]
            count += len(clash)
        elif clash and mode:
            rid = min(clash)
            scope = [(name, t.index, [c[0] for c in t.cols])]
            cur = list(new[rid])
            vals = {c[0].lower(): full[i] for i, c in enumerate(t.cols)}
            for c, e in mode[1]:
                i = t.index.get(c.lower())
                if i is None:
                    raise SQLError(1054, "Unknown column '%s' in 'field list'" % c, '42S22')
                if e[0] == 'fn' and e[1] == 'values' and e[2] and e[2][0][0] == 'col':
                    v = vals.get(e[2][0][2].lower())
                else:
                    v = ev(e, Env(scope, tuple(cur)), cx)
                cur[i] = store(v, t.cols[i], lenient)
            if tuple(cur) != new[rid]:
                count += 2
                for i in uniq:
                    if any(compare(x[i], cur[i]) == 0 for k, x in new.items() if k != rid):
                        raise SQLError(1062, "Duplicate entry '%s' for key 'PRIMARY'" % text(cur[i]), '23000')
                new[rid] = tuple(cur)
            continue
        elif clash:
            raise SQLError(1062, "Duplicate entry '%s' for key 'PRIMARY'" % text(full[min(clash.values())]), '23000')
        new[nxt] = tuple(full)
        nxt += 1
        count += 1
    return t.with_rows(new, nxt), count


def run_update(t, s, cx):
    _, tab, sets, where, top = s
    scope = [(tab[2], t.index, [c[0] for c in t.cols])]
    for c, e in sets:
        if c.lower() not in t.index:
            raise SQLError(1054, "Unknown column '%s' in 'field list'" % c, '42S22')
    if not t.rows:
        if where is not None:
            check_names(where, scope, None, cx)
        for c, e in sets:
            check_names(e, scope, None, cx)
    new = dict(t.rows)
    n = 0
    for rid in chosen(t, scope, where, top, cx):
        r = t.rows[rid]
        cur = list(r)
        for c, e in sets:
            i = t.index[c.lower()]
            v = ev(e, Env(scope, tuple(cur)), cx)
            cur[i] = store(v, t.cols[i], not cx.strict)
        cur = tuple(cur)
        if cur != r:
            n += 1
            for i, c in enumerate(t.cols):
                if c[5] and any(compare(x[i], cur[i]) == 0 for k, x in new.items() if k != rid):
                    raise SQLError(1062, "Duplicate entry '%s' for key 'PRIMARY'" % text(cur[i]), '23000')
            new[rid] = cur
    return t.with_rows(new), n


def chosen(t, scope, where, top, cx):
    """Ids of the rows an update or delete is about."""
    ids = [rid for rid, r in t.rows.items() if where is None or truth(ev(where, Env(scope, r), cx))]
    if top is not None:
        order, n = top
        if order:
            ids.sort(key=lambda rid: [Sort(ev(e, Env(scope, t.rows[rid]), cx), d) for e, d in order])
        ids = ids[:n]
    return ids


def run_delete(t, s, cx):
    _, tab, where, top = s
    scope = [(tab[2], t.index, [c[0] for c in t.cols])]
    if where is not None and not t.rows:
        check_names(where, scope, None, cx)
    gone = set(chosen(t, scope, where, top, cx))
    return t.with_rows({rid: r for rid, r in t.rows.items() if rid not in gone}), len(gone)


def run_create(s):
    _, name, cols, ine = s
    seen = set()
    for c in cols:
        if c[0].lower() in seen:
            raise SQLError(1060, "Duplicate column name '%s'" % c[0], '42S21')
        seen.add(c[0].lower())
    return Table(name, cols)


def execute(db, sql):
    """Autocommit execution on a dict (for the reference model): returns (new db, (names, rows) or None)."""
    return run(db, parse(sql))


def run(db, s):
    k = s[0]
    cx = Ctx(lambda n: get(db, n))
    if k == 'select':
        return db, run_select(s, cx)
    if k == 'create':
        if s[1] in db:
            if s[3]:
                return db, None
            raise SQLError(1050, "Table '%s' already exists" % s[1], '42S01')
        new = dict(db)
        new[s[1]] = run_create(s)
        return new, None
    if k == 'drop':
        new = dict(db)
        for n in s[1]:
            if n not in new:
                if s[2]:
                    continue
                raise SQLError(1051, "Unknown table '%s'" % n, '42S02')
            del new[n]
        return new, None
    if k == 'truncate':
        return {**db, s[1]: get(db, s[1]).with_rows({})}, None
    name = s[1] if k == 'insert' else s[1][1]
    t = get(db, name)
    t, n = {'insert': run_insert, 'update': run_update, 'delete': run_delete}[k](t, s, cx)
    new = dict(db)
    new[name] = t
    return new, None

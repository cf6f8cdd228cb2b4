"""The scenario object of C01-C13."""
import json
import os

from .. import boot
from .. import kernel as kern
from .. import proxy
from .. import seams
from . import profiles
from . import world

REAL = ['handler.py, service.py (tornado 6.1 application, its thread pool and futures)', 'controller/', 'scheduler/ (catalog, rewriting, '
        'ciphers, executors)', 'dbutils/ (connection pool)', 'sql_parsing/ (parser and formatter)', 'mysql.connector 8.0.28 (pure Python)',
        'asyncio BaseEventLoop, concurrent.futures', 'sqlite3 (metadata store of some runs)']
STUBS = ['MySQL servers (wire protocol, sessions, transactions, locks, SQL subset)', 'TCP sockets and the selector', 'HTTP parsing '
         '(requests enter as start line, headers and body)', 'pandas.read_csv (simulated files)', 'log file handlers',
         'clock, sleep, locks, thread start, random sources']


class Scenario:
    state_measure = 'hash of (server, requests in flight with the number of packets each has sent, faults so far) at each back-end statement'
    real_code = REAL
    stubs = STUBS
    phases = ['main']

    def __init__(self, pid):
        self.id = pid
        self.prof = profiles.ALL[pid](pid)
        self.claims = ''

    def prepare(self):
        seams.install()
        proxy.prepare()
        proxy.install()
        boot.ensure_tool()
        boot.start_monitor()
        import sql_parsing
        for q in ("select a, sum(b) from t1 where a=1 and b like '%x%' order by a desc limit 1", "insert into t(a,b) values(1,'x')",
                  "update t set a=1 where b='x'", "delete from t where a=1", "create table t(a int, b varchar(20) primary key)", "drop table t",
                  "selec"):
            for f in (sql_parsing.parse_mysql, sql_parsing.parse):
                try:
                    f(q)
                except Exception:
                    pass
        for q in ('ALTER TABLE a ADD PRIMARY KEY (b)', 'select 1'):
            try:
                sql_parsing.parse_alter_key(q)
            except Exception:
                pass
        warm_codes()
        from cryptography.hazmat.backends import default_backend
        default_backend()

    def enter_phase(self, ph):
        pass

    def plan(self, seed, phase):
        p = self.prof.plan(seed, phase)
        profiles.tagged(p)
        return p

    def shrink(self, plan):
        return self.prof.shrink(plan)

    def execute(self, plan, decider, opts):
        w = world.World(self, plan, decider, opts)
        k = w.run()
        if k.end is not None and k.end[0] in ('idle', 'timeout', 'steps') and w.inflight:
            msg = 'run ended with %s while %s had no answer' % (k.end, sorted(w.inflight))
            if self.id == 'C11':
                k.end = ('violation', ('C11', 'hang', msg))
            else:
                k.soft.append(('C11', 'hang', msg))
                k.end = ('ok', None)
        return k, {'states': sorted(w.states)}

    def matches(self, f, v):
        m = f.get('match') or {}
        return m.get('kind') == v[1] and m.get('text', '') in v[2]


def warm_codes():
    """Compile every module of the proxy once, in the parent."""
    for top in boot.PROXY_TOP:
        p = os.path.join(boot.REPO, top)
        if os.path.isfile(p + '.py'):
            boot.code_of(p + '.py')
        for root, _, files in os.walk(p):
            if '__pycache__' in root or 'lex_module' in root:
                continue
            for f in files:
                if f.endswith('.py'):
                    try:
                        boot.code_of(os.path.join(root, f))
                    except SyntaxError:
                        pass

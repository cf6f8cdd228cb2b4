"""Loading the code under test (always from the current working tree of /repo) and the line monitor."""
import builtins
import os
import sys
import types

from . import kernel as kern

REPO = os.environ.get('VERIF_REPO', '/repo')
TOOL = 3

_codes = {}         # path -> code object


def find(name):
    p = os.path.join(REPO, *name.split('.'))
    if os.path.isfile(p + '.py'):
        return p + '.py', False
    if os.path.isfile(os.path.join(p, '__init__.py')):
        return os.path.join(p, '__init__.py'), True
    if os.path.isdir(p):
        return None, True
    return None


def code_of(path):
    c = _codes.get(path)
    if c is None:
        with open(path, 'rb') as f:
            c = compile(f.read(), path, 'exec', dont_inherit=True)
        _codes[path] = c
    return c


# packages of the repository that belong to the proxy process (loaded afresh for every simulated process)
PROXY_TOP = ('handler', 'service', 'controller', 'scheduler', 'dbutils')
# those without state of the process, loaded once
LIBRARY_TOP = ('data', 'demo', 'dots', 'euler_db', 'eulerdb_c', 'imports', 'parsing', 'parsing_future', 'sql_parsing', 'sql_research', 'test')
_real_import = builtins.__import__


def _atomic_imports():
    """No task switch inside an import of a library: the import system's own locks are real ones."""
    import importlib._bootstrap as bs
    real = bs._find_and_load
    if getattr(real, 'sim', False):
        return

    def _find_and_load(name, import_):
        k = kern.K
        t = k.current if k is not None and kern.in_task() else None
        if t is None:
            return real(name, import_)
        t.nopre += 1
        try:
            return real(name, import_)
        finally:
            t.nopre -= 1
    _find_and_load.sim = True
    bs._find_and_load = _find_and_load


_atomic_imports()


class ProcessImage:
    """One simulated process: its own copies of the proxy's modules."""

    def __init__(self, name, tops=PROXY_TOP, open_hook=None):
        self.name = name
        self.tops = tops
        self.modules = {}
        self.loading = {}
        self.known = {}
        self.builtins = dict(builtins.__dict__)
        self.builtins['__import__'] = self._import
        self.builtins['print'] = lambda *a, **k: None
        if open_hook is not None:
            self.builtins['open'] = open_hook

    def mine(self, name):
        top = name.split('.')[0]
        if top not in self.known:
            # modules added later to the top level of the repository belong to the process as well
            self.known[top] = top in self.tops or self.tops is PROXY_TOP and top not in LIBRARY_TOP and find(top) is not None
        return self.known[top]

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            # another task may be importing it
            k = kern.K
            while k is not None and k.current is not None and self.loading.get(name, k.current) is not k.current:
                k.sleep(kern.MS)
            return m
        parent, _, leaf = name.rpartition('.')
        if parent:
            self.load(parent)
            if name in self.modules:
                return self.modules[name]
        f = find(name)
        if f is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        path, pkg = f
        m = types.ModuleType(name)
        m.__builtins__ = self.builtins
        m.__file__ = path
        m.__package__ = name if pkg else parent
        if pkg:
            m.__path__ = [os.path.join(REPO, *name.split('.'))]
        self.modules[name] = m
        if kern.K is not None:
            self.loading[name] = kern.K.current
        if path is not None:
            try:
                exec(code_of(path), m.__dict__)
            except BaseException:
                self.modules.pop(name, None)
                raise
            finally:
                self.loading.pop(name, None)
        if parent:
            setattr(self.modules[parent], leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get('__package__') or ''
            base = pkg.split('.')
            if level > 1:
                base = base[:-(level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if not self.mine(name):
            k = kern.K
            t = k.current if k is not None else None
            if t is None:
                return _real_import(name, globals, locals, fromlist, 0)
            t.nopre += 1
            try:
                return _real_import(name, globals, locals, fromlist, 0)
            finally:
                t.nopre -= 1
        m = self.load(name)
        if not fromlist:
            return self.modules[name.split('.')[0]]
        if hasattr(m, '__path__'):
            for n in fromlist:
                if n != '*' and not hasattr(m, n) and find(name + '.' + n):
                    self.load(name + '.' + n)
        return m


def load_plain(names, tops=PROXY_TOP):
    img = ProcessImage('plain', tops)
    for n in names:
        img.load(n)
    return img.modules


# ---- line monitor ------------------------------------------------------------------------------------------------

_monitored = set()


def _walk(code):
    yield code
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            yield from _walk(c)


def monitor_code(code):
    mon = sys.monitoring
    for c in _walk(code):
        if c not in _monitored or True:
            mon.set_local_events(TOOL, c, mon.events.LINE | mon.events.JUMP | mon.events.CALL)


def ensure_tool():
    mon = sys.monitoring
    if mon.get_tool(TOOL) is None:
        mon.use_tool_id(TOOL, 'sim')


def monitor(mods):
    """Preemption points at every line of these modules (already loaded)."""
    ensure_tool()
    for m in mods:
        f = getattr(m, '__file__', None)
        if f:
            monitor_code(code_of(f))


def start_monitor():
    mon = sys.monitoring
    mon.register_callback(TOOL, mon.events.LINE, kern.K_line)
    mon.register_callback(TOOL, mon.events.JUMP, kern.K_jump)
    mon.register_callback(TOOL, mon.events.C_RETURN, kern.K_called)


def stop_monitor():
    mon = sys.monitoring
    for e in (mon.events.LINE, mon.events.JUMP, mon.events.C_RETURN):
        mon.register_callback(TOOL, e, None)

"""Linearizability of a history of SQL requests against the reference model (an unencrypted database).

An entry: dict(id, inv, res, sql list or None, must, apply(state) -> list of (new state, accept) )
 - inv, res: positions in the global order of observations; res None: still open when the run ended.
 - optional: may be left out (error answer or no answer): then it had no effect.
"""
from . import sqlengine as sq


class Entry:
    __slots__ = ('id', 'inv', 'res', 'optional', 'step', 'what')

    def __init__(self, id, inv, res, optional, step, what):
        self.id = id
        self.inv = inv
        self.res = res if res is not None else 1 << 60
        self.optional = optional
        self.step = step        # state -> new state or None (answer impossible in this state)
        self.what = what


def state_key(st):
    return tuple(sorted((n, key_of(t)) for n, t in st.items()))


_keys = {}
_numbers = {}


def key_of(t):
    k = _keys.get(id(t))
    if k is None or k[0] is not t:
        # a number for each contents; not hash(): hash(-1) == hash(-2)
        k = (t, _numbers.setdefault(t.key(), len(_numbers)))
        _keys[id(t)] = k
    return k[1]


class Limit(Exception):
    pass


def check(entries, state, limit=200000):
    """None if linearizable; otherwise the longest prefix of operations that could be placed and the stuck ones."""
    entries = sorted(entries, key=lambda e: e.inv)
    n = len(entries)
    full = (1 << n) - 1
    seen = set()
    cache = {}
    best = [-1, (), ()]
    steps = [0]
    # depth-first, explicit stack: (done mask, state, path)
    stack = [(0, state, ())]
    while stack:
        mask, st, path = stack.pop()
        if mask == full:
            return None
        sk = state_key(st)
        if (mask, sk) in seen:
            continue
        seen.add((mask, sk))
        steps[0] += 1
        if steps[0] > limit:
            raise Limit()
        horizon = 1 << 61
        todo = []
        for i in range(n):
            if not mask >> i & 1:
                e = entries[i]
                if e.inv > horizon:
                    break
                todo.append(i)
                if e.res < horizon:
                    horizon = e.res
        cand = [i for i in todo if entries[i].inv < horizon]
        if len(path) > best[0]:
            best = [len(path), path, tuple(entries[i].what for i in cand)]
        if all(entries[i].optional for i in range(n) if not mask >> i & 1):
            return None
        nxt = []
        for i in cand:
            e = entries[i]
            c = (i, sk)
            if c in cache:
                new = cache[c]
            else:
                new = e.step(st)
                cache[c] = new
            if new is not None:
                nxt.append((mask | 1 << i, new, path + (e.id,)))
            if e.optional and e.res == horizon:
                # its time is up: it had no effect
                nxt.append((mask | 1 << i, st, path))
        # earliest answer first
        stack.extend(reversed(nxt))
    return best


def run_sql(state, sql):
    """(new state, result) or raises sq.SQLError."""
    return sq.execute(state, sql)

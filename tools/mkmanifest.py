"""Writes MANIFEST.json."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
POOL = ('Seeded search over schedules, plans and faults of the real dbutils code (line-level preemption, every wait, connect, '
        'call and failure decided by the seed) against a black-box oracle; no claim beyond the runs made. Trusted: the '
        'simulated driver and the kernel. Races of several borrowers replacing one shared connection are excluded '
        '(see DESIGN.md).')
WORLD = ('Seeded search over schedules, workloads and faults of the whole proxy (real tornado handlers, thread pool, '
         'rewriting, crypto, catalog, pool and MySQL driver) in one process over simulated sockets and MySQL servers; no '
         'claim beyond the runs made. Trusted: the simulated MySQL server, the reference model and the kernel.')
PARSER = ('Seeded search over schedules of threads parsing, line-level preemption inside the real parser, compared with trees '
          'from fresh processes; no claim beyond the runs made.')
TECH = 'deterministic simulation with fault injection: seeded search over schedules and faults, '
CHECKS = {
    'C14': (TECH + 'lending history checked', POOL), 'C15': (TECH + 'limits checked as invariants', POOL),
    'C16': (TECH + 'progress of all borrowers', POOL), 'C17': (TECH + 'per-connection history at the driver', POOL),
    'C18': (TECH + 'results against driver calls', POOL), 'C19': (TECH + 'transactions against driver calls', POOL),
    'C01': (TECH + 'linearizability of the answers against a plain database model', WORLD),
    'C02': (TECH + 'final contents of the back end against the recorded answers', WORLD),
    'C03': (TECH + 'answers compared with what each statement met at the server', WORLD),
    'C04': (TECH + 'every packet to the back end scanned for protected words and values', WORLD),
    'C05': (TECH + 'catalog and rows after crash and restart against the recorded answers', WORLD),
    'C06': (TECH + 'running and freshly started proxies compared at quiescence', WORLD),
    'C07': (TECH + 'each answer compared with that of the same request alone', WORLD),
    'C08': (TECH + 'address, database and account of every session against the request', WORLD),
    'C09': (TECH + 'uniqueness of tickets and decrypted rows against the issuing query', WORLD),
    'C10': (TECH + 'sessions at the servers monitored for two users and for leftovers', WORLD),
    'C11': (TECH + 'one answer per request and recovery after the last fault', WORLD),
    'C12': (TECH + 'rows of the loaded file against the rows at the back end', WORLD),
    'C20': (TECH + 'trees compared with those of the same text parsed alone', PARSER),
    'C21': (TECH + 'requests that do not need a frozen server answered in bounded virtual time', WORLD),
    'C22': (TECH + 'linearizability of the listings with the creates and drops', WORLD),
    'C13': (TECH + 'aggregates against every cut of the history', WORLD),
}
NA = [
    ('N01', 'The column ciphers are pure functions of key and value: no thread, clock, I/O, randomness that matters or fault '
            'takes part, so there is no schedule or fault sequence to search; running them in a simulator would only be '
            'input testing.'),
    ('N02', 'Formatting a tree and parsing it again is a pure function of one input; no nondeterminism takes part.'),
]


def main():
    checks = []
    for pid in sorted(CHECKS):
        tech, note = CHECKS[pid]
        checks.append({'property': pid, 'quick_cmd': './check %s' % pid, 'thorough_cmd': './check %s --tier thorough' % pid,
                       'technique': tech, 'level': 'exploration', 'level_note': note})
    props = [json.loads(x)['id'] for x in open(os.path.join(ROOT, 'properties.jsonl'))]
    na = [{'property': p, 'reason': r} for p, r in NA]
    for p in props:
        if p not in CHECKS and p not in dict(NA):
            na.append({'property': p, 'reason': 'not built yet'})
    m = {'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo: every seam is installed from outside (patched modules and builtins).'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()

"""Command line: run, replay, inspect."""
import argparse
import json
import os
import shutil
import sys
import tempfile
import time

from . import registry, runner
from .seams import real

ROOT = runner.ROOT


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [x for x in json.load(f) if isinstance(x, dict)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seeds', type=int)
    ap.add_argument('--first', type=int)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 8))
    ap.add_argument('--wall', type=float)
    ap.add_argument('--seed', type=int, help='run one seed verbosely')
    ap.add_argument('--phase')
    ap.add_argument('--replay')
    ap.add_argument('--log', action='store_true')
    ap.add_argument('--no-min', action='store_true')
    ap.add_argument('--min-budget', type=float, default=90)
    ap.add_argument('--digests', help='write digest of every seed to this file')
    a = ap.parse_args()
    pid = a.property
    scn = registry.get(pid)
    scratch = tempfile.mkdtemp(prefix='simrun-')
    cwd = os.getcwd()
    if a.replay:
        a.replay = os.path.abspath(a.replay)
    os.chdir(scratch)
    try:
        code = go(a, pid, scn)
    finally:
        os.chdir(cwd)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def go(a, pid, scn):
    t0 = real.time()
    scn.prepare()
    import gc
    gc.collect()
    gc.freeze()
    if a.replay:
        return do_replay(a, pid, scn)
    if a.seed is not None:
        return one_seed(a, pid, scn)
    base = int(os.environ.get('VERIF_SEED', '1') or 1)
    n, wall = registry.budget(pid, a.tier)
    if a.seeds:
        n = a.seeds
    if a.wall:
        wall = a.wall
    first = a.first if a.first is not None else (base * 1_000_003) % (1 << 40)
    phases = scn.phases
    share = getattr(scn, 'phase_share', [1.0 / len(phases)] * len(phases))
    seeds = []
    at = 0
    for ph, sh in zip(phases, share):
        m = max(1, int(n * sh))
        seeds += [(ph, first + at + i) for i in range(m)]
        at += m
    findings = [f for f in known_findings() if f.get('property') == pid and f.get('status') == 'known']
    reported = 0
    for f in findings:
        if not f.get('replay'):
            continue
        d, res = runner.replay(scn, os.path.join(ROOT, f['replay']))
        if runner.is_violation(res, pid) and res['end'][1][1] == d['kind']:
            print('KNOWN-FINDING: property=%s %s' % (pid, f['what']))
        reported += 1

    def known(v):
        return any(f.get('match') and scn.matches(f, v) for f in findings)
    agg, bad, harness = runner.search(scn, seeds, a.jobs, wall, pid, known if findings else None)
    code = 0
    replay_path = None
    if bad is not None:
        replay_path, ok = minimise(a, pid, scn, bad)
        code = 1
        if not ok and bad['digest'] == 'hang':
            # a machine too busy to tell
            bad, code = None, 0
            harness.append({'seed': None, 'end': ['hang', 'once only']})
    if code == 0 and harness:
        code = 2
        for h in harness[:3]:
            print('HARNESS ERROR seed=%s: %s' % (h.get('seed'), h['end']), file=sys.stderr)
    det = determinism(scn, seeds, 4) if code == 0 else None
    evidence(a, pid, scn, agg, bad, replay_path, base, t0, det, len(seeds), harness)
    print('%s: %d runs in %.1f s, ends %s, other-property observations %s' % (
        pid, agg.runs, agg.wall, agg.ends, agg.soft), flush=True)
    if os.environ.get('SIM_ODD'):
        for kind, ss in sorted(agg.odd.items()):
            print('  %s: seeds %s' % (kind, ss[:6]), flush=True)
    if a.digests:
        pass
    if code == 1:
        print('VIOLATION property=%s replay=%s' % (pid, replay_path), flush=True)
    return code


def determinism(scn, seeds, n):
    """Run a few seeds a second time in fresh processes: the digests must agree."""
    same = 0
    tot = 0
    ph, seed = seeds[0]
    scn.enter_phase(ph)
    for p, s in seeds[:n]:
        if p != ph:
            continue
        plan = scn.plan(s, p)
        d = [runner.run_child(scn, plan, None, s).get('digest') for _ in range(2)]
        tot += 1
        same += d[0] == d[1]
    return {'seeds run twice': tot, 'identical': same}


def minimise(a, pid, scn, bad):
    seed, phase = bad['seed'], bad['phase']
    scn.enter_phase(phase)
    plan = scn.plan(seed, phase)
    res = runner.run_child(scn, plan, None, seed)
    if not runner.is_violation(res, pid):
        # not reproducible from the seed: report what was seen
        res = bad
        res['made'] = {}
    print('violation seed=%d: %s' % (seed, res['end'][1]), flush=True)
    out = os.path.join(ROOT, 'out', 'replays')
    path = os.path.join(out, '%s-%d.json' % (pid, seed))
    best = None
    if not a.no_min and res['end'][1][1] != 'hang':
        m = runner.Minimiser(scn, plan, seed, res, a.min_budget, a.jobs, print)
        best = m.run()
    if best is not None:
        tbl = dict(best.get('made', m.table))
        runner.write_replay(path, scn, m.plan, m.table if best is None else tbl, seed, phase, best,
                            {'minimised': True, 'tries': m.tries, 'original_message': res['end'][1][2]})
    else:
        runner.write_replay(path, scn, plan, res.get('made', {}), seed, phase, res, {'minimised': False})
    d, again = runner.replay(scn, path)
    ok = runner.is_violation(again, pid) and again['digest'] == d['digest']
    print('replay %s: %s' % ('reproduces exactly' if ok else 'DIFFERS', again['end']), flush=True)
    return path, ok


def do_replay(a, pid, scn):
    d, res = runner.replay(scn, a.replay, a.log)
    if a.log:
        for line in res.get('log', []):
            print(line)
    print(json.dumps({k: v for k, v in res.items() if k in ('end', 'digest', 'virtual_ns', 'steps')}, indent=1))
    if runner.is_violation(res, pid):
        print('recorded digest %s, now %s' % (d['digest'], res['digest']))
        print('VIOLATION property=%s replay=%s' % (pid, a.replay))
        return 1
    return 0


def one_seed(a, pid, scn):
    ph = a.phase or scn.phases[0]
    scn.enter_phase(ph)
    plan = scn.plan(a.seed, ph)
    res = runner.run_child(scn, plan, None, a.seed, a.log)
    if a.log:
        print(json.dumps(plan))
        for line in res.get('log', []):
            print(line)
    res.pop('log', None)
    res.pop('made', None)
    print(json.dumps(res, indent=1, default=str))
    if res['end'][0] == 'harness':
        print(res['end'][1])
    return 1 if res['end'][0] == 'violation' else 0


def evidence(a, pid, scn, agg, bad, replay_path, base, t0, det, planned, harness):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    faults = {k: v for k, v in sorted(agg.stats.items()) if k.startswith('fault')}
    other = {k: v for k, v in sorted(agg.stats.items()) if not k.startswith('fault')}
    wall = max(agg.wall, 1e-6)
    sample_phase = scn.phases[0]
    first = (base * 1_000_003) % (1 << 40)
    try:
        sample = scn.plan(first, sample_phase)
    except Exception as e:
        sample = repr(e)
    cov = {
        'evaluations': agg.runs,
        'distinct_nontrivial': len(agg.digests),
        'rule': 'one evaluation is one simulated execution drawn from one seed (workload, schedule, latencies, faults); '
                'distinct by the digest of its full event history; non-trivial: at least one task switch',
        'samples': [{'seed': first, 'plan': sample}],
        'runs planned': planned,
        'simulated runs per hour': int(agg.runs / wall * 3600),
        'seeds per hour': int(agg.runs / wall * 3600),
        'simulated time covered (s)': round(agg.virtual / 1e9, 3),
        'longest run (simulated s)': round(agg.max_virtual / 1e9, 3),
        'faults injected': faults,
        'workload': other,
        'distinct interleavings (hash of the task-switch sequence)': len(agg.inter),
        'distinct states': {'count': len(agg.states), 'measure': getattr(scn, 'state_measure', 'scenario state tuple')},
        'task switches': agg.switches, 'scheduler steps': agg.steps, 'monitored source lines executed': agg.lines,
        'tasks started': agg.tasks,
        'run endings': agg.ends,
        'observations belonging to other properties': agg.soft,
        'determinism self-check': det,
        'harness errors': len(harness),
        'real code': getattr(scn, 'real_code', []), 'stubbed': getattr(scn, 'stubs', []),
    }
    if bad is not None:
        cov['violation'] = {'seed': bad['seed'], 'what': bad['end'][1], 'replay': replay_path}
    ev = {'property': pid, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': base,
          'level': 'exploration', 'coverage': cov, 'wall_s': round(real.time() - t0, 2),
          'claims': getattr(scn, 'claims', '')}
    if not ev['claims']:
        ev.pop('claims')
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
        f.write('\n')


if __name__ == '__main__':
    main()

"""Makes known/C04-ope-identity.json: a minimised run in which the order-preserving cipher sends a number in clear."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import registry, runner


def main():
    scn = registry.get('C04')
    scn.prepare()
    for seed in range(2000003, 2000100):
        plan = scn.plan(seed, 'main')
        plan['strict_ope'] = True
        res = runner.run_child(scn, plan, None, seed)
        if runner.is_violation(res, 'C04') and res['end'][1][1] == 'ope-identity':
            break
    m = runner.Minimiser(scn, plan, seed, res, 60, 8, print)
    best = m.run() or res
    p = os.path.join(runner.ROOT, 'known', 'C04-ope-identity.json')
    runner.write_replay(p, scn, m.plan, dict(best.get('made', m.table)), seed, 'main', best, {'minimised': True})
    print(best['end'], runner.replay(scn, p)[1]['end'])


main()

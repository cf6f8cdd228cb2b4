"""dev tool: cov.py N [IDs]  -- lines of the proxy never executed in N seeds of each property."""
import dis
import os
import sys
import types
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot, registry, runner

mon = sys.monitoring
HIT = set()
real_code = boot.code_of


def line(code, n):
    if code.co_filename.startswith(boot.REPO + '/'):
        HIT.add((code.co_filename[len(boot.REPO) + 1:], n))
    return mon.DISABLE


def main():
    n = int(sys.argv[1])
    ids = sys.argv[2:] or ['C%02d' % i for i in range(1, 14)]
    total = set()
    inner = runner.child_main

    def child_main(scn, plan, table, seed, keep):
        # tool 4 sees every line once, whatever tool 3 (preemption) does
        mon.use_tool_id(4, 'cov')
        mon.register_callback(4, mon.events.LINE, line)
        mon.set_events(4, mon.events.LINE)
        res = inner(scn, plan, table, seed, keep)
        res['cov'] = sorted(HIT)
        return res
    runner.child_main = child_main
    for pid in ids:
        if os.fork() == 0:
            scn = registry.get(pid)
            scn.prepare()
            got = set()
            with ThreadPoolExecutor(int(os.environ.get('JOBS', 8))) as ex:
                for r in ex.map(lambda s: runner.run_child(scn, scn.plan(s, scn.phases[0]), None, s), range(3000001, 3000001 + n)):
                    got |= {tuple(x) for x in r.get('cov', ())}
            with open('/tmp/cov.%s' % pid, 'w') as f:
                for x in sorted(got):
                    f.write('%s\t%d\n' % x)
            os._exit(0)
        os.wait()
        total |= {(a, int(b)) for a, b in (x.rstrip('\n').split('\t') for x in open('/tmp/cov.%s' % pid))}
    for top in sorted({f for f, _ in total}):
        p = os.path.join(boot.REPO, top)
        lines = set()

        def walk(c):
            for _, _, ln in c.co_lines():
                if ln and ln != c.co_firstlineno:
                    lines.add(ln)
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    walk(k)
        src = open(p).read().split('\n')
        walk(compile(open(p, 'rb').read(), p, 'exec'))
        miss = sorted(l for l in lines if (top, l) not in total)
        print('== %s: %d of %d lines not executed' % (top, len(miss), len(lines)))
        for l in miss:
            print('   %5d %s' % (l, src[l - 1][:140]))


main()

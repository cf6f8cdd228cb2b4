"""Dev tool: run statements one after another against the real proxy in a quiet simulated world, next to the reference.

usage: forms.py < statements   (one per line; lines of the form '#create ...|name:kind,...' are not needed: two tables exist)"""
import json, os, sys, tempfile
sys.path.insert(0, '/verif')
from sim import boot, registry, runner
from sim.kernel import Draw
from sim.scen import workload as wl, world as wd, profiles
pid = 'C01'
scn = registry.get(pid)
d = tempfile.mkdtemp(); os.chdir(d)
scn.prepare()
r = wl.R(Draw(5, 'plan'))
t1 = wl.table(r, 'tab0', kinds=['str', 'fuz', 'int', 'sum', 'flo', 'dbl', 'pint', 'pstr', 'pdbl'], n=0)
t2 = wl.table(r, 'tab1', kinds=['str', 'int', 'pint', 'pstr'], n=0)
g = wl.Gen(r, [t1, t2])
plan = scn.plan(1, 'main')
plan['kernel']['pre_mean'] = 0
plan['setup'] = [g.create(t1), g.create(t2)] + [g.insert(t1) for _ in range(5)] + [g.insert(t2) for _ in range(5)]
ops = []
for line in sys.stdin:
    line = line.strip()
    if not line: continue
    db = 'app'
    ops.append({'k': 'x', 't': ['tab0'], 'srv': 0, 'db': db, 'sql': line.replace('\\n', '\n'), 'nolin': True, 'id': 'c0.%d' % len(ops)})
    if ' ENC ' in line:
        s, e = line.split(' ENC ')
        ops[-1]['sql'] = s.replace('\\n', '\n'); ops[-1]['enc'] = json.loads(e)
plan['clients'] = [ops]; plan['events'] = []; plan['faults'] = {}
plan['tables'] = [t1.spec(), t2.spec()]; plan['final'] = []; plan['again'] = []
def setup(w):
    profiles.Profile.setup(w.scn.prof, w)
def finish(w):
    st = {}
    for rec in w.history:
        sql = rec.op['sql']
        try:
            st, res = wd.run(st, wd.parse(sql))
            ref = res if res is not None else 'done'
        except Exception as e:
            ref = 'ERR %s' % e
        if rec.tag.startswith('_s'):
            if not rec.ok: print('SETUP FAILED', rec, rec.ans)
            continue
        a = rec.ans
        if not rec.ok: got = 'REFUSED'
        elif a['rows']: got = [a['names'], a['rows']]
        else: got = 'ok'
        if ref not in ('done',) and not isinstance(ref, str):
            same = rec.ok and wd.multi(a['rows'] or []) == wd.multi(ref[1])
        else:
            same = rec.ok == (not isinstance(ref, str) or not ref.startswith('ERR'))
        print('%s  %s' % ('SAME' if same else 'DIFF', sql.replace('\n', '\\n')))
        if not same or '-v' in sys.argv:
            if not isinstance(ref, str) and rec.ok and a['rows']:
                x, y = wd.multi(a['rows']), wd.multi(ref[1]); print('      only proxy', [q for q in x if q not in y]); print('      only ref', [q for q in y if q not in x])
            print('      proxy', str(got)[:300]); print('      ref  ', str(ref)[:300])
            print('      sent ', [q[:200] for q in w.sql_of.get(rec.tag, []) if not q.startswith('SET')][:4])
scn.prof.finish = finish
from sim import kernel as kern, seams
seams.reseed(1)
k, _ = scn.execute(plan, kern.Decider(1, None), {})
print(k.end)

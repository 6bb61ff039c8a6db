import sys, time, importlib
sys.path.insert(0, '/verif/vc')
from mir import Program
from spec_base import run_spec
mod, cls = sys.argv[1].split(':')
d = ([a for a in sys.argv[2:] if not a.startswith('-')] or ['/verif/.build/mir'])[0]
prog = Program(d)
spec = getattr(importlib.import_module(mod), cls)()
r = run_spec(prog, spec)
print(r.status, r.why, '%.1fs' % r.time, 'queries', r.ex.smt.stats.queries, 'solver %.1fs' % r.ex.smt.stats.time)
print(r.tb)
for o in r.obs:
    print(('OK  ' if o.failed is None else 'FAIL'), o.paths, o.props, o.name, '@', o.where)
    if o.failed and '-v' in sys.argv:
        print('   ', o.failed[0]); print('\n'.join('      ' + x for x in o.failed[1])); print(o.failed[2][:3000])
if '-i' in sys.argv:
    for l in r.ex.loop_info:
        print('LOOP', l['at'], l.get('kinds'), l.get('dropped')); print('\n'.join('      '+x for x in l.get('invariant', ())))
print(r.ex.opaque_hits)

"""development runner: python3 runsc.py MODULE [SCENARIO...]"""
import sys; sys.path.insert(0, '/verif/engine')
from suite import *
import importlib
for m in sys.argv[1].split(','): importlib.import_module(m)
env = Env(os.environ.get('XD_DUMP', '/verif/build/out/xml_dom.json'))
tot = time.time()
for s in SCENARIOS:
    if sys.argv[2:] and s.id not in sys.argv[2:]: continue
    if not sys.argv[2:] and s.fn.__module__ not in sys.argv[1].split(','): continue
    for ci, c in enumerate(s.cases):
        r = run_case(env, s, ci, os.environ.get('TIER', 'quick'), time.time() + 120)
        print('%-28s %-10s paths %d clauses %d undecided %d %.2fs %s' % (s.id, str(c)[:30], r['paths'], r['clauses'], len(r['undecided']), r['wall'], {k: v for k, v in r['stats'].items() if k in ('cut', 'pruned', 'truncated')}), r['anchor'] or '')
        u = {}
        for x in r['undecided']: u[x] = u.get(x, 0) + 1
        for x, n in sorted(u.items(), key=lambda y: -y[1])[:5]: print('     undecided %d %s' % (n, x[:220]))
        for k, v in list(r['viol'].items())[:12]:
            print('     VIOL', k, v['count'], v['message'][:200]); 
            if os.environ.get('V'): print('          ', v['pre_state'], v['outcome'], v['partition'], v['call_path'])
print('%.1fs' % (time.time() - tot))

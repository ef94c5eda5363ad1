"""run.py PROPERTY TIER : decide one property on /repo's current working tree.
exit 0: no violation found; exit 1 with `VIOLATION property=<id> replay=<path>` otherwise."""
import sys, os, time, json, subprocess, multiprocessing, shutil, importlib, hashlib, atexit, resource, signal
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from suite import *
import registry

PROP = sys.argv[1]
TIER = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
T0 = time.time()
BUDGET = 420 if TIER == 'quick' else 780
WORK = os.path.join(ROOT, 'build', 'run-%s-%d' % (PROP, os.getpid()))

def cleanup():
    shutil.rmtree(WORK, ignore_errors=True)

def dump():
    if os.environ.get('XD_DUMP'): return os.environ['XD_DUMP']
    r = subprocess.run(['bash', os.path.join(HERE, 'dump.sh'), WORK, 'none'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        print(r.stdout[-3000:])
        print('the source of /repo could not be compiled for analysis')
        sys.exit(2)
    return os.path.join(WORK, 'xml_dom.json')

_env = None
class Late(Exception): pass
def late(*_): raise Late('a single element takes longer than the time of the check')
def worker():
    """limits of a worker process: an analysis that needs more is undecided, it must not take the check down"""
    resource.setrlimit(resource.RLIMIT_AS, (3500 << 20, 3500 << 20))
    signal.signal(signal.SIGALRM, late)
def task(t):
    i, ci, base, deadline = t
    try:
        signal.alarm(max(1, int(deadline - time.time()) + 40))
        return run_case(_env, SCENARIOS[i], ci, TIER, deadline, base=base)
    except Exception as e:
        import traceback
        return {'scenario': SCENARIOS[i].id, 'case': str(ci), 'paths': 0, 'clauses': 0, 'undecided': ['%s: %s' % (e.__class__.__name__, e)], 'viol': {}, 'anchor': None,
                'functions': {}, 'samples': [], 'stats': {}, 'wall': 0, 'error': traceback.format_exc()}
    finally:
        signal.alarm(0)

def merge(rs):
    out = {}
    for r in rs:
        m = out.setdefault(r['scenario'], {'scenario': r['scenario'], 'elements': 0, 'clauses': 0, 'undecided': 0, 'undecided_reasons': {}, 'infeasible': 0, 'beyond_bound': 0, 'closed_at_bound': 0,
                                           'truncated': False, 'wall_s': 0.0})
        m['elements'] += r['paths']; m['clauses'] += r['clauses']; m['undecided'] += len(r['undecided'])
        for u in r['undecided']:
            if len(m['undecided_reasons']) < 6 or u in m['undecided_reasons']: m['undecided_reasons'][u] = m['undecided_reasons'].get(u, 0) + 1
        st = r['stats']
        m['closed_at_bound'] += r.get('at_bound', 0); m['infeasible'] += st.get('pruned', 0); m['beyond_bound'] += st.get('cut', 0); m['truncated'] |= st.get('truncated', False)
        m['wall_s'] = round(m['wall_s'] + r['wall'], 2)
    return list(out.values())

def main():
    global _env
    os.makedirs(WORK, exist_ok=True); atexit.register(cleanup)
    known = []
    kf = os.path.join(ROOT, 'known-findings.json')
    if os.path.exists(kf): known = json.load(open(kf))['findings']
    viol = {}
    results = []; static = []
    d = dump()
    try:
        _env = Env(d)
    except EngineError as e:
        viol['%s|anchor|%s' % (PROP, e)] = {'property': PROP, 'key': '%s|anchor|%s' % (PROP, e), 'message': str(e)}
    if _env is not None:
        tasks = []
        for i, s in enumerate(SCENARIOS):
            if PROP not in s.props: continue
            for ci in range(len(s.cases)):
                signal.signal(signal.SIGALRM, late); signal.alarm(20)
                try: n = run_case(_env, s, ci, TIER, None, probe=True)
                except Exception: n = 1
                finally: signal.alarm(0)
                for j in range(n): tasks.append((i, ci, (j,) if n > 1 else (), T0 + BUDGET))
        # longest cases first is unknown: keep the order, small chunks
        if tasks:
            with multiprocessing.get_context('fork').Pool(min(8, len(tasks)), worker) as pool:
                for r in pool.imap_unordered(task, tasks, chunksize=1): results.append(r)
        for sid, f in registry.STATIC.get(PROP, []):
            t = time.time()
            try:
                r = f(_env, TIER)
            except EngineError as e:
                r = {'obligations': 0, 'viol': [], 'analysed': {}, 'anchor': str(e)}
            r['id'] = sid; r['wall_s'] = round(time.time() - t, 2)
            static.append(r)
            if r.get('anchor'): viol['%s|%s|anchor' % (PROP, sid)] = {'property': PROP, 'key': '%s|%s|anchor' % (PROP, sid), 'message': 'anchor missing: ' + r['anchor']}
            for v in r['viol']:
                v['property'] = PROP; v['key'] = '%s|%s|%s' % (PROP, sid, v['key']); viol[v['key']] = v
    for r in results:
        if r['anchor']: viol['%s|%s|anchor' % (PROP, r['scenario'])] = {'property': PROP, 'key': '%s|%s|anchor' % (PROP, r['scenario']), 'message': 'anchor missing: ' + r['anchor']}
        for k, v in r['viol'].items():
            if v['property'] != PROP: continue
            if k in viol and 'count' in viol[k]: viol[k]['count'] += v['count']
            elif k not in viol: viol[k] = v
    ms = merge(results)
    obligations = sum(m['clauses'] for m in ms) + sum(s.get('obligations', 0) for s in static)
    if _env is not None and obligations == 0 and not viol:
        und = sum(m['undecided'] for m in ms)
        print('UNDECIDED property=%s no obligation could be evaluated (%d undecided elements)' % (PROP, und))
    kn = {k['key']: k for k in known if k['property'] == PROP and k.get('status', 'open') == 'open'}
    fresh = {k: v for k, v in viol.items() if k not in kn}
    for k, f in sorted(kn.items()):
        print('KNOWN-FINDING: property=%s %s%s' % (PROP, f['what'], '' if k in viol else ' (not observed in this run)'))
    fns = {}
    for r in results:
        for k, n in r['functions'].items(): fns[k] = fns.get(k, 0) + n
    samples = [s for r in results for s in r['samples']][:4]
    cov = {
        'explanation': registry.EXPLANATION.get(PROP, registry.DEFAULT_EXPLANATION),
        'rule': registry.RULE,
        'obligations_evaluated': obligations,
        'abstract_interpretation': {
            'scenarios': ms,
            'partition_elements': sum(m['elements'] for m in ms),
            'clauses_decided': sum(m['clauses'] for m in ms),
            'undecided_elements': sum(m['undecided'] for m in ms),
            'elements_closed_at_shape_bound': sum(m['closed_at_bound'] for m in ms),
            'elements_beyond_shape_bound': sum(m['beyond_bound'] for m in ms),
            'functions_interpreted': len(fns),
            'functions': sorted(fns)[:80],
            'samples': samples,
        },
        'queries': [{k: v for k, v in s.items() if k != 'viol'} for s in static],
        'mir_bodies_in_crate': len(_env.prog.B) if _env else 0,
        'known_findings_listed': len(kn),
    }
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': 'other', 'coverage': cov,
          'assumptions': registry.ASSUMPTIONS, 'wall_s': round(time.time() - T0, 2), 'violations': len(fresh)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', PROP + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s (%s): %d scenarios, %d partition elements, %d functions interpreted, %d obligations, %d undecided, %.1fs' % (
        PROP, TIER, len(ms), cov['abstract_interpretation']['partition_elements'], len(fns), obligations, cov['abstract_interpretation']['undecided_elements'], time.time() - T0))
    if fresh:
        rd = os.path.join(ROOT, 'build', 'replay'); os.makedirs(rd, exist_ok=True)
        for k, v in sorted(fresh.items()):
            p = os.path.join(rd, '%s-%s.json' % (PROP, hashlib.sha1(k.encode()).hexdigest()[:12]))
            with open(p, 'w') as f: json.dump(v, f, indent=1, default=str)
            print('  %s: %s' % (k, v.get('message', '')))
            if v.get('operation'): print('     in %s' % ' -> '.join(v['operation'][-1:]))
            print('VIOLATION property=%s replay=%s' % (PROP, p))
        return 1
    return 0

if __name__ == '__main__':
    rc = main()
    cleanup()
    sys.stdout.flush()
    sys.exit(rc)

"""evalseeds.py [ID...]: run the check of each planted bug's property on a scratch copy with the bug (development aid)
   evalseeds.py --benign DIFF... : run all checks on a scratch copy with a behaviour-preserving edit"""
import sys, os, subprocess, json, shutil, tempfile, concurrent.futures as cf
R = '/verif'
def dump(patch):
    w = tempfile.mkdtemp(dir='/tmp/w'); src = w + '/src'; os.mkdir(src)
    subprocess.run('git ls-files -z | xargs -0 cp --parents -t %s' % src, shell=True, cwd='/repo', check=True)
    r = subprocess.run(['patch', '-p1', '-s', '-i', patch], cwd=src, capture_output=True, text=True)
    if r.returncode: return w, None, r.stdout
    r = subprocess.run(['bash', R + '/engine/dump.sh', w + '/d', 'none'], env=dict(os.environ, XD_REPO=src), capture_output=True, text=True)
    if r.returncode: return w, None, r.stderr[-800:]
    return w, w + '/d/xml_dom.json', ''
def check(prop, d):
    r = subprocess.run([R + '/check.sh', prop, os.environ.get('TIER', 'quick')], env=dict(os.environ, XD_DUMP=d), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('  C') or l.startswith('UNDEC')]
    return r.returncode, v, r.stdout.splitlines()[0][:150] if r.stdout else r.stderr[-300:]
def main():
    a = sys.argv[1:]
    props = [c['property'] for c in json.load(open(R + '/MANIFEST.json'))['checks']]
    if a and a[0] == '--benign':
        for p in a[1:]:
            w, d, e = dump(os.path.abspath(p))
            if not d: print(p, 'FAILED', e)
            else:
                for c in props:
                    rc, v, s = check(c, d)
                    if rc or 'undecided' in s and ' 0 undecided' not in s: print(p, c, 'rc', rc, s, v[:3])
                print(p, 'done')
            shutil.rmtree(w)
        return
    ids = a or sorted(os.listdir(R + '/seeded'))
    def one(i):
        m = json.load(open('%s/seeded/%s/meta.json' % (R, i)))
        w, d, e = dump('%s/seeded/%s/patch.diff' % (R, i))
        if not d: return i, m['property'], 'ERROR ' + e, []
        rc, v, s = check(m['property'], d) if m['property'] in props else ('unclaimed', [], '')
        shutil.rmtree(w)
        return i, m['property'], rc, v
    caught = 0
    with cf.ThreadPoolExecutor(3) as ex:
        for i, p, rc, v in ex.map(one, ids):
            caught += rc == 1
            print('%-32s %s %s %s' % (i, p, 'CAUGHT' if rc == 1 else 'missed(%s)' % rc, (v[0].strip()[:150] if v else ''))); sys.stdout.flush()
    print('%d of %d caught' % (caught, len(ids)))
main()

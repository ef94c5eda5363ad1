"""compares the models of the standard library with the library itself: every function of /verif/selftest is executed
and interpreted; prints the functions whose results differ or are not determined (development tool)"""
import subprocess, os, sys
sys.path.insert(0, '/verif/engine'); sys.setrecursionlimit(20000)
T = '/tmp/xd_selftest'
os.makedirs(T, exist_ok=True)
e = dict(os.environ, XD_REPO='/verif/selftest', CARGO_TARGET_DIR=T + '/native')
out = subprocess.run(['cargo', '+nightly', 'run', '--offline', '-q', '--manifest-path', '/verif/selftest/Cargo.toml'], env=e, capture_output=True, text=True)
if out.returncode: print(out.stderr[-3000:]); sys.exit(2)
want = dict(l.split('\t', 1) for l in out.stdout.splitlines() if '\t' in l)
# results with line breaks do not occur
subprocess.run(['bash', '/verif/engine/dump.sh', T, 'none'], env=dict(os.environ, XD_REPO='/verif/selftest'), check=True)
from interp import *
prog = Prog(T + '/xml_dom.json')
class D: pass
bad = 0
for n, w in want.items():
    if sys.argv[1:] and n not in sys.argv[1:]: continue
    try:
        rs = set()
        for o, st in explore(prog, Config(), lambda P: P.call(n, [])):
            v = o.val if o.kind == 'ret' else None
            s = res(o.path.un(v)) if v is not None else None
            if s.__class__ is Run: s = ''.join(chr(c) for c in s.c) if all(c.__class__ is int for c in s.c) else repr(s)
            if s.__class__ is Cat: s = sstr(s)+'~'
            if o.path.imprecise: rs.add('imprecise: ' + str(o.path.imprecise[0]))
            else: rs.add(s if s.__class__ is str else '%s %s %r' % (o.kind, getattr(getattr(o, 'panic', None), 'msg', ''), s if s.__class__ not in (type(None),) else None))
    except Exception as ex: rs = {'%s: %s' % (type(ex).__name__, ex)}
    if rs != {w}: bad += 1; print('%-20s want %r got %s' % (n, w, ' | '.join(sorted(str(r)[:200] for r in rs))))
print('%d of %d agree' % (len(want if not sys.argv[1:] else sys.argv[1:]) - bad, len(want if not sys.argv[1:] else sys.argv[1:])))

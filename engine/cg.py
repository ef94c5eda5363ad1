"""call graph of the crate: edges for resolved calls, function values, closures, and formatting of local types"""
from core import *

def fns_in(j, out):
    """all function descriptors and closure aggregates in a piece of MIR"""
    if j.__class__ is dict:
        f = j.get('fn')
        if f.__class__ is dict: out.append(f)
        for v in j.values():
            if v.__class__ in (dict, list): fns_in(v, out)
    elif j.__class__ is list:
        for v in j:
            if v.__class__ in (dict, list): fns_in(v, out)

class CallGraph:
    def __init__(self, prog):
        self.prog = prog
        self.E = {}
        self.sites = {}
        by_closure = {}
        for k in prog.B: self.E[k] = set()
        for k, b in prog.B.items():
            fs = []
            for x in b['bb']:
                if x: fns_in(x, fs)
            for p in b.get('prom') or []: fns_in(p, fs)
            for f in fs:
                for t in self.targets(f): self.E[k].add(t); self.sites.setdefault((k, t), 0)
        for k in prog.B:      # a closure belongs to the function that contains it
            i = k.rfind('::{closure')
            if i > 0 and k[:i] in prog.B: self.E[k[:i]].add(k)

    def targets(self, f):
        p = self.prog
        for n in ('r', 'p'):
            if f.get(n) in p.B: return [f[n]]
        out = []
        if f.get('local') and f.get('tr'):      # dynamic dispatch: every implementation
            out += [k for im, k in p.impls.get((short(f['tr']), f['n']), [])]
        if f.get('n', '').startswith('new_d') and f.get('a'):
            t = p.T[f['a'][-1]]
            while t['k'] == 'ref': t = p.T[t['e']]
            tr = {'new_display': 'Display', 'new_debug': 'Debug'}.get(f['n'])
            for im, k in p.impls.get((tr, 'fmt'), []):
                if p.T[im['st']]['s'] == t['s'] or t['k'] == 'adt' and p.T[im['st']].get('p') == t.get('p'): out.append(k)
        elif f.get('n') == 'to_string' and f.get('a'):
            t = p.T[f['a'][0]]
            while t['k'] == 'ref': t = p.T[t['e']]
            for im, k in p.impls.get(('Display', 'fmt'), []):
                if p.T[im['st']]['s'] == t['s'] or t['k'] == 'adt' and p.T[im['st']].get('p') == t.get('p'): out.append(k)
        return [k for k in out if k in p.B]

    def reach(self, key):
        seen = {key}; st = [key]
        while st:
            for t in self.E.get(st.pop(), ()):
                if t not in seen: seen.add(t); st.append(t)
        return seen

    def sccs(self):
        if hasattr(self, '_s'): return self._s
        idx = {}; low = {}; on = set(); st = []; out = []; n = [0]
        def go(v):
            work = [(v, iter(sorted(self.E[v])))]
            idx[v] = low[v] = n[0]; n[0] += 1; st.append(v); on.add(v)
            while work:
                x, it = work[-1]
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = n[0]; n[0] += 1; st.append(w); on.add(w)
                        work.append((w, iter(sorted(self.E[w])))); break
                    elif w in on: low[x] = min(low[x], idx[w])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[x])
                    if low[x] == idx[x]:
                        c = []
                        while True:
                            w = st.pop(); on.discard(w); c.append(w)
                            if w == x: break
                        if len(c) > 1 or x in self.E[x]: out.append(frozenset(c))
        for v in sorted(self.E):
            if v not in idx: go(v)
        self._s = out
        return out

    def recursion_elsewhere(self, key):
        """recursive functions reached from key that are not recursive through key"""
        r = self.reach(key)
        return sorted(k for c in self.sccs() if key not in c for k in c if k in r)

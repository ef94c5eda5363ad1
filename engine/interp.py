from core import *
import os

U64 = 2**64 - 1
RANGES = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, 2**32-1), 'u64': (0, U64), 'usize': (0, U64), 'u128': (0, 2**128-1),
          'i8': (-128, 127), 'i16': (-2**15, 2**15-1), 'i32': (-2**31, 2**31-1), 'i64': (-2**63, 2**63-1), 'isize': (-2**63, 2**63-1), 'i128': (-2**127, 2**127-1)}

DEV = bool(os.environ.get('XD_DEV'))

class Frame:
    __slots__ = ('b', 'key', 'L', 'visits', 'span')
    def __init__(self, b, key):
        self.b = b; self.key = key; self.visits = {}; self.span = b['span']
        self.L = [Cell(UNINIT) for _ in b['locals']]

class Config:
    K = 2            # elements materialised per list summary
    KC = 3           # characters materialised per string summary
    KM = 2           # map entries
    DEPTH = 2        # tree depth below the scenario's nodes
    UP = 2           # parent chain
    SEPS = 2         # separators in split()
    LOOP = 48
    CALLS = 80
    STEPS = 400000
    weak_dead = False
    fmt_fail = False
    depth_cut = False
    NODES = 0        # bound on the number of nodes of a lazily refined tree (0: none)
    opaque = ()      # body keys treated as uninterpreted functions
    def __init__(self, **kw):
        for k, v in kw.items():
            if not hasattr(Config, k): raise EngineError('config ' + k)
            setattr(self, k, v)

class Path:
    def __init__(self, prog, cfg, prefix=()):
        self.prog = prog; self.cfg = cfg; self.prefix = prefix
        self.choices = []
        self._nid = 0
        self.memo = {}
        self.ssyms = {}
        self.seqs = []
        self.cons = []
        self.frames = []
        self.trace = []
        self.writes = []
        self.calls = []
        self.imprecise = []
        self.bounded = False
        self.steps = 0
        self.nodes = []
        self.consts = {}
        self.order = 0
        self.events = []

    def nid(self):
        self._nid += 1
        return self._nid

    # ------------------------------------------------------------ partition
    def choose(self, n, label=''):
        i = len(self.choices)
        if n <= 0: raise Prune()
        if n == 1: return 0
        c = self.prefix[i] if i < len(self.prefix) else 0
        self.choices.append((n, c, label))
        return c

    def where(self):
        for f in reversed(self.frames):
            return '%s (%s:%s)' % (f.key, f.span[0], f.span[1])
        return '?'

    def stack(self):
        return [('%s' % f.key, '%s:%s' % (f.span[0], f.span[1])) for f in self.frames]

    def panic(self, msg, kind='panic'):
        raise Panic(msg, self.stack(), kind)

    def imp(self, what):
        self.imprecise.append((what, self.where()))

    # ------------------------------------------------------------ linear decisions
    def sys(self, extra=()):
        out = []; vs = {}
        for l in list(self.cons) + list(extra):
            l = lin_norm(l)
            if l.__class__ is int:
                if l < 0: return None
                continue
            out.append((l.t, l.c))
            for x in l.t: vs[x.id] = x
        todo = list(vs.values())
        for x in todo:
            lo = x.lo
            if x.src is not None and x.src.__class__ in (Gap, MGap): lo = max(lo, x.src.min)
            if x.src is not None and x.src.__class__ is SSym and x.src.nonempty: lo = max(lo, 1)
            out.append(({x: 1}, -lo)); out.append(({x: -1}, x.hi))
        return out

    def feasible(self, *extra):
        s = self.sys(extra)
        return s is not None and fm_feasible(s)

    def ge0(self, l, label=''):
        l = lin_norm(l) if l.__class__ is Lin else l
        if l.__class__ is int: return l >= 0
        neg = ladd(-1, l, -1)
        a = self.feasible(l); b = self.feasible(neg)
        if a and b:
            if self.choose(2, label or ('%s >= 0' % lin_str(l))) == 0:
                self.cons.append(l); return True
            self.cons.append(neg); return False
        if a: return True
        if b: return False
        raise Prune()

    def entails_ge0(self, l):
        l = lin_norm(l) if l.__class__ is Lin else l
        if l.__class__ is int: return l >= 0
        return not self.feasible(ladd(-1, l, -1))

    def entails_eq(self, a, b):
        d = ladd(a, b, -1)
        if d.__class__ is int: return d == 0
        return self.entails_ge0(d) and self.entails_ge0(lmul(d, -1))

    def eq0(self, l):
        l = lin_norm(l) if l.__class__ is Lin else l
        if l.__class__ is int: return l == 0
        n = lmul(l, -1)
        e = self.feasible(l, n); gt = self.feasible(ladd(l, -1)); lt = self.feasible(ladd(n, -1))
        opts = ([0] if e else []) + ([1] if gt else []) + ([2] if lt else [])
        if not opts: raise Prune()
        o = opts[self.choose(len(opts), '%s == 0 / > / <' % lin_str(l))]
        if o == 0: self.cons.append(l); self.cons.append(n); return True
        self.cons.append(ladd(l, -1) if o == 1 else ladd(n, -1))
        return False

    def assume_ge0(self, l):
        if not self.feasible(l): raise Prune()
        self.cons.append(l if l.__class__ is Lin else Lin(l, {}))

    # ------------------------------------------------------------ gaps
    def gap_new(self, g):
        h = Gap(self, g.name, g.make, g.root)
        h.facts = g.facts
        return h

    def fact(self, f, *x):
        try:
            if not f(self, *x): raise Prune()
        except Panic:
            self.imp('segment fact panics')

    def gap_elem(self, g, what):
        root = g.root
        lim = root.meta.get('K', self.cfg.K)
        if root.count >= lim:
            self.bounded = True
            raise Cut()
        root.count += 1
        e = root.make(self, g, what)
        for f in g.facts: self.fact(f, e)
        return e

    def gap_empty_options(self, g):
        can_e = g.min == 0
        can_n = True
        if self.cons:
            if can_e and not self.feasible(Lin(0, {g.var: -1})): can_e = False
            if not self.feasible(Lin(-1, {g.var: 1})): can_n = False
        return can_e, can_n

    def gap_take(self, g, end='head'):
        """settle whether summary g is empty; if not, materialise its first (last) element"""
        if g.bound is not None: return
        e, n = self.gap_empty_options(g)
        if e and n:
            root = g.root
            if root.count >= root.meta.get('K', self.cfg.K):
                # bound of the shape domain reached
                self.bounded = True
                g.bound = (); return
            if root.meta.get('closed'):
                g.bound = (); return
            c = self.choose(2, '%s: %s element / end' % (g.name, 'next' if end == 'head' else 'last'))
            if c == 1: g.bound = (); return
        elif e: g.bound = (); return
        elif not n: raise Prune()
        x = self.gap_elem(g, end)
        h = self.gap_new(g)
        h.min = max(0, g.min - 1)
        g.bound = (x, h) if end == 'head' else (h, x)

    def first(self, items):
        """(found, elem, rest) of an item tuple"""
        while True:
            items = flat_items(items)
            if not items: return False, None, ()
            if items[0].__class__ is Gap: self.gap_take(items[0], 'head'); continue
            return True, items[0], items[1:]

    def last(self, items):
        while True:
            items = flat_items(items)
            if not items: return False, None, ()
            if items[-1].__class__ is Gap: self.gap_take(items[-1], 'tail'); continue
            return True, items[-1], items[:-1]

    def force(self, items):
        """materialise completely"""
        out = []
        while True:
            f, x, items = self.first(items)
            if not f: return tuple(out)
            out.append(x)

    def is_empty_items(self, items):
        f, x, r = self.first(items)
        return not f

    def locate(self, items, idx, boundary=False):
        """flatten items so that index idx falls on an explicit position; returns (items, k) where k is
        None when out of range.  With boundary=True the position may be the end."""
        idx = lin_norm(idx) if idx.__class__ is Lin else idx
        for _ in range(200):
            items = flat_items(items)
            pos = 0
            again = False
            k = 0
            while k < len(items):
                d = ladd(idx, pos, -1)
                x = items[k]
                if x.__class__ is Gap:
                    if d.__class__ is int:
                        if d < 0: return items, None
                        if boundary and d == 0: return items, k
                        self.gap_take(x, 'head'); again = True; break
                    dd = ladd(d, Lin(0, {x.var: 1}), -1)     # idx - pos - len(gap)
                    if dd.__class__ is int:
                        if dd >= 0: pos = ladd(pos, Lin(0, {x.var: 1})); k += 1; continue
                        self.gap_take(x, 'tail'); again = True; break
                    # general case: partition
                    if self.ge0(dd, 'index beyond %s' % x.name):
                        pos = ladd(pos, Lin(0, {x.var: 1})); k += 1; continue
                    if not self.ge0(d): return items, None
                    g1 = self.gap_new(x); g2 = self.gap_new(x)
                    e = self.gap_elem(x, 'mid')
                    x.bound = (g1, e, g2)
                    self.assume_ge0(ladd(d, Lin(0, {g1.var: 1}), -1))
                    self.assume_ge0(ladd(Lin(0, {g1.var: 1}), d, -1))
                    again = True; break
                else:
                    if d.__class__ is int:
                        if d == 0: return items, k
                        if d < 0: return items, None
                    elif self.eq0(d): return items, k
                    pos = ladd(pos, 1); k += 1
            if again: continue
            d = ladd(idx, pos, -1)
            if boundary and (d == 0 if d.__class__ is int else self.eq0(d)): return items, len(items)
            return items, None
        raise Cut()

    # ------------------------------------------------------------ map gaps
    def mg_new(self, g):
        h = MGap(self, g.name, g.make, g.root); h.absent = list(g.absent); h.facts = g.facts
        return h

    def map_flat(self, m):
        m = res(m)
        if m.g is None or m.g.bound is None: return m
        e = list(m.e); g = m.g
        while g is not None and g.bound is not None:
            e.extend(g.bound[0]); g = g.bound[1]
        return MapV(tuple(e), g)

    def mg_take(self, g):
        """iteration over the unnamed rest of a map"""
        if g.bound is not None: return
        can_e = g.min == 0
        can_n = True
        if self.cons:
            if can_e and not self.feasible(Lin(0, {g.var: -1})): can_e = False
            if not self.feasible(Lin(-1, {g.var: 1})): can_n = False
        if not can_n: g.bound = ((), None); return
        if can_e:
            if g.root.count >= self.cfg.KM:
                self.bounded = True; g.bound = ((), None); return
            if self.choose(2, '%s: another entry / end' % g.name) == 1:
                g.bound = ((), None); return
        elif g.root.count >= self.cfg.KM + 2:
            self.bounded = True; raise Cut()
        g.root.count += 1
        k, v = g.make(self, g, None)
        h = self.mg_new(g); h.min = max(0, g.min - 1)
        g.bound = (((k, v),), h)
        for a in g.absent:
            if self.veq(a, k): raise Prune()
        for f in g.facts: self.fact(f, k, v)

    def map_lookup(self, m, key):
        """(index in entries, m') or (None, m')"""
        m = self.map_flat(m); key = self.un(key)
        for i, (k, v) in enumerate(m.e):
            if self.veq(k, key): return i, m
        g = m.g
        if g is None: return None, m
        for a in g.absent:
            if self.same(a, key): return None, m
        can_n = not self.cons or self.feasible(Lin(-1, {g.var: 1}))
        if not can_n: return None, m
        if g.root.count >= self.cfg.KM + 2 or (g.min == 0 and False):
            self.bounded = True; return None, m
        if g.min == 0 or True:
            if self.choose(2, '%s: key absent / present' % g.name) == 0:
                g.absent.append(key)
                return None, m
        g.root.count += 1
        k, v = g.make(self, g, key)
        h = self.mg_new(g); h.min = max(0, g.min - 1)
        g.bound = (((k, v),), h)
        for a in g.absent:
            if self.veq(a, k): raise Prune()
        for f in g.facts: self.fact(f, k, v)
        m = self.map_flat(m)
        return len(m.e) - 1, m

    # ------------------------------------------------------------ enums
    def nvars(self, ty):
        a = self.prog.adts.get(ty)
        return len(a['v']) if a else None

    def narrow(self, s, dom):
        """restrict the variants of enum symbol s"""
        s0 = s
        s = res(s)
        if s.__class__ is Adt:
            if s.vi not in dom: raise Prune()
            return
        dom = frozenset(dom)
        d = s.dom & dom
        if not d: raise Prune()
        if d == s.dom and len(d) > 1: return
        s.dom = d
        if len(d) == 1: self.settle(s)
        if s.hook: s.hook(self, s)

    def settle(self, s):
        vi = next(iter(s.dom))
        ent = self.prog.adts[s.ty]['v'][vi]
        f = tuple(self.field_of(s, vi, i, ft[1]) for i, ft in enumerate(ent['f']))
        s.val = Adt(s.ty, vi, f)

    def field_of(self, s, vi, i, fty):
        if s.mk is not None:
            r = s.mk(self, vi, i)
            if r is not None: return r
        args = s.meta.get('args') if s.meta else None
        return self.fresh_t(fty, '%s.%s' % (s.name, i), args)

    def variant(self, v, groups=None, label=''):
        """settle the variant of an enum value (or only the group it belongs to)"""
        v = res(v)
        if v.__class__ is Adt: return v.vi
        if v.__class__ is not Sym: raise EngineError('variant of %r' % (v,))
        dom = sorted(v.dom)
        if len(dom) == 1:
            self.settle(v); return dom[0]
        i = self.choose(len(dom), label or '%s variant' % v.name)
        self.narrow(v, {dom[i]})
        return dom[i]

    # ------------------------------------------------------------ bools
    def truth(self, b):
        b = res(b)
        if b is True or b is False: return b
        if b.__class__ is int: return bool(b)
        if b.__class__ is Sym:
            c = self.choose(2, b.name)
            b.val = (c == 0)
            if b.hook: b.hook(self, b)
            return b.val
        raise EngineError('truth of %r' % (b,))

    def memo_bool(self, k, label):
        if k in self.memo: return self.memo[k]
        r = self.choose(2, label) == 0
        self.memo[k] = r
        return r

    # ------------------------------------------------------------ chars
    def cin(self, c, iv, label=''):
        """is char c in the interval set iv?"""
        if c.__class__ is int:
            return any(a <= c <= b for a, b in iv)
        inn = []; out = []
        for a, b in c.iv:
            cur = a
            for x, y in sorted(iv):
                if y < cur or x > b: continue
                if x > cur: out.append((cur, x - 1))
                inn.append((max(cur, x), min(b, y)))
                cur = min(b, y) + 1
                if cur > b: break
            if cur <= b: out.append((cur, b))
        if not inn: return False
        if not out: return True
        if self.choose(2, label or '%s in %s' % (c.name, iv_str(iv))) == 0:
            c.iv = inn; return True
        c.iv = out; return False

    def ceq(self, a, b):
        if a.__class__ is int and b.__class__ is int: return a == b
        if a.__class__ is int: a, b = b, a
        if b.__class__ is int: return self.cin(a, [(b, b)])
        if a is b: return True
        # two undetermined chars: intersection
        inter = iv_and(a.iv, b.iv)
        if not inter: return False
        if self.choose(2, 'chars equal') == 0:
            a.iv = inter; b.iv = inter
            self.imp('char unification')
            return True
        return False

    def fix_width(self, c):
        w = cwidth(c)
        if w is not None: return w
        for lo, hi, w in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3)):
            if self.cin(c, [(lo, hi)], 'utf-8 width %d' % w): return w
        return 4

    # ------------------------------------------------------------ strings
    def sgap(self, s):
        if s.gap is None:
            def make(path, g, what, s=s):
                c = CSym(path, 'char of %s' % s.name)
                if s.no:
                    for ch in s.no:
                        if len(ch) == 1: c.iv = iv_sub(c.iv, [(ord(ch), ord(ch))])
                return c
            s.gap = Gap(self, 'chars(%s)' % s.name, make)
            s.gap.meta = {'K': self.cfg.KC}
            if s.nonempty: s.gap.min = 1
        return s.gap

    def chars(self, s):
        s = res(s)
        if s.__class__ is str: return tuple(ord(c) for c in s)
        out = []
        for p in sparts(s):
            if p.__class__ is str: out.extend(ord(c) for c in p)
            elif p.__class__ is Run: out.extend(p.i)
            else: out.append(self.sgap(p))
        return flat_items(tuple(out))

    def s_is_empty(self, s):
        s = res(s)
        if s.__class__ is str: return s == ''
        for p in sparts(s):
            if p.__class__ is str: return False
            if p.__class__ is Run:
                if not self.is_empty_items(p.i): return False
                continue
            if p.nonempty: return False
            if p.gap is not None:
                if not self.is_empty_items((p.gap,)): return False
                continue
            can_e = '' not in p.ne and (not self.cons or self.feasible(Lin(0, {p.var: -1})))
            can_n = not self.cons or self.feasible(Lin(-1, {p.var: 1}))
            if can_e and can_n:
                if self.choose(2, '%s empty?' % p.name) == 0:
                    p.val = ''; continue
                p.nonempty = True
                return False
            if can_e: p.val = ''; continue
            p.nonempty = True
            return False
        return True

    def slen(self, s):
        for p in sparts(s):
            if p.__class__ is Run:
                for c in self.force(p.i): self.fix_width(c)
        return str_len(s)

    def key(self, v):
        v = res(v)
        t = v.__class__
        if t in (int, str, bool, bytes): return (t.__name__, v)
        if t is SSym: return ('S', v.id)
        if t is Sym: return ('Y', v.id)
        if t is Cat: return ('cat',) + tuple(self.key(p) for p in v.p)
        if t is Run: return ('run',) + tuple(self.key(p) for p in flat_items(v.i))
        if t is CSym: return ('C', v.id) if not (len(v.iv) == 1 and v.iv[0][0] == v.iv[0][1]) else ('int', v.iv[0][0])
        if t is Gap: return ('G', v.id)
        if t is MGap: return ('MG', v.id)
        if t is Adt: return ('A', v.p, v.vi) + tuple(self.key(x) for x in v.f)
        if t is Tup: return ('T',) + tuple(self.key(x) for x in v.f)
        if t is Seq: return ('Q',) + tuple(self.key(x) for x in flat_items(v.i))
        if t is MapV:
            m = self.map_flat(v)
            return ('M', frozenset((self.key(k), self.key(x)) for k, x in m.e), self.key(m.g) if m.g else None)
        if t is RcV: return ('R', v.o.id)
        if t is WeakV: return ('W', v.o.id if v.o else None)
        if t is Lin: return ('L', v.c) + tuple(sorted((x.id, k) for x, k in v.t.items()))
        if t is Ref: return self.key(self.rd(v))
        if t is Bits: return ('B',) + tuple(self.key(x) for x in v.b)
        if t is RCell: return ('RC', v.id)
        if t is Clo: return ('clo', v.k) + tuple(self.key(x) for x in v.f)
        if t is FnV: return ('fn', v.d['p'])
        if v is UNINIT: return ('uninit',)
        if t is DSym: return ('D', self.key(v.s))
        if t is Guard: return ('guard', v.id)
        if t is Opq: return ('O', v.id)
        return (t.__name__, id(v))

    def same(self, a, b):
        return self.key(a) == self.key(b)

    def bind_s(self, s, v):
        """bind string symbol s to value v (v is not s)"""
        v = res(v)
        if v.__class__ is SSym and v is s: return
        for p in sparts(v):
            if p is s: raise Prune()
        for i in s.neid:
            q = res(self.ssyms[i])
            if q is v or (q.__class__ is str and v.__class__ is str and q == v): raise Prune()
            if q.__class__ is SSym:
                if v.__class__ is str: q.ne.add(v)
                elif v.__class__ is SSym: q.neid.add(v.id)
        if s.nm is not None:
            if v.__class__ is str:
                if name_outcome(v) != s.nm: raise Prune()
            elif v.__class__ is SSym:
                if v.nm is None: v.nm = s.nm
                elif v.nm != s.nm: raise Prune()
        if v.__class__ is str:
            if v in s.ne or (s.nonempty and v == ''): raise Prune()
            for ch in s.no:
                if ch in v: raise Prune()
            if s.gap is not None: self.unify_items((s.gap,), tuple(ord(c) for c in v))
            if s.len is not None:
                if not self.entails_eq(s.len, len(v.encode())): self.assume_ge0(ladd(s.len, len(v.encode()), -1)); self.assume_ge0(ladd(len(v.encode()), s.len, -1))
            elif self.cons:
                n = len(v.encode())
                self.assume_ge0(Lin(-n, {s.var: 1})); self.assume_ge0(Lin(n, {s.var: -1}))
        elif v.__class__ is SSym:
            v.ne |= s.ne; v.nonempty = v.nonempty or s.nonempty; v.no |= s.no; v.neid |= s.neid
            if s.gap is not None:
                if v.gap is None: v.gap = s.gap
                else: self.unify_items((s.gap,), (v.gap,))
            if v.nonempty and v.gap is not None and v.gap.bound is None: v.gap.min = max(1, v.gap.min)
            if s.len is not None and v.len is None: v.len = s.len
        else:
            for p in sparts(v):
                if p.__class__ is str and any(ch in p for ch in s.no): raise Prune()
            if s.gap is not None: self.unify_items((s.gap,), self.chars(v))
            for c in s.ne: self.seqs.append((v, c, False))
            for i in s.neid: self.seqs.append((v, self.ssyms[i], False))
        s.val = v

    def unify_items(self, a, b):
        while True:
            a = flat_items(a); b = flat_items(b)
            if not a and not b: return
            if not a: a, b = b, a
            if not b:
                if a[0].__class__ is Gap:
                    if a[0].min > 0: raise Prune()
                    a[0].bound = (); continue
                raise Prune()
            if a[0].__class__ is Gap and b[0].__class__ is Gap:
                if a[0] is b[0]: a, b = a[1:], b[1:]; continue
                if len(a) == 1 and len(b) == 1: a[0].bound = (b[0],); return
                self.imp('unify gaps'); return
            if b[0].__class__ is Gap: a, b = b, a
            if a[0].__class__ is Gap:
                # b[0] is an element
                if len(a) == 1:
                    a[0].bound = tuple(b); return
                self.imp('unify gaps'); return
            x, y = a[0], b[0]
            if x.__class__ is CSym or y.__class__ is CSym:
                if x.__class__ is int: x, y = y, x
                if y.__class__ is int:
                    if not any(lo <= y <= hi for lo, hi in x.iv): raise Prune()
                    x.iv = [(y, y)]
                else:
                    iv = iv_and(x.iv, y.iv)
                    if not iv: raise Prune()
                    x.iv = y.iv = iv
            elif x != y: raise Prune()
            a, b = a[1:], b[1:]

    def s_eq(self, a, b):
        a = res(a); b = res(b)
        if a is b: return True
        if a.__class__ is str and b.__class__ is str: return a == b
        ka = self.key(a); kb = self.key(b)
        if ka == kb: return True
        if a.__class__ is str: a, b = b, a; ka, kb = kb, ka
        if b.__class__ is str:
            if b == '': return self.s_is_empty(a)
            if a.__class__ is SSym:
                if b in a.ne or any(ch in b for ch in a.no): return False
                if a.nm is not None and name_outcome(b) != a.nm: return False
                if a.gap is not None: return self.items_eq((a.gap,), tuple(ord(c) for c in b))
                if self.cons:
                    n = len(b.encode())
                    if not self.feasible(Lin(-n, {a.var: 1}), Lin(n, {a.var: -1})): return False
                if self.choose(2, '%s == %r' % (a.name, b)) == 0:
                    self.bind_s(a, b); return True
                a.ne.add(b)
                return False
            # composite against a constant
            ps = list(sparts(a))
            t = b
            while ps and ps[0].__class__ is str:
                if not t.startswith(ps[0]): return False
                t = t[len(ps[0]):]; ps.pop(0)
            while ps and ps[-1].__class__ is str:
                if not t.endswith(ps[-1]): return False
                t = t[:len(t) - len(ps[-1])]; ps.pop()
            if not ps: return t == ''
            for p in ps:
                if p.__class__ is str and p not in t: return False
            if len(ps) == 1 and ps[0].__class__ is SSym: return self.s_eq(ps[0], t)
            if any(p.__class__ is Run for p in ps): return self.items_eq(self.chars(a), tuple(ord(c) for c in b))
            r = self.s_eq_sep(ps, [t])
            if r is not None: return r
            k = ('seq', ka, b)
            r = self.memo_bool(k, '%s == %r' % (sstr(a), b))
            self.seqs.append((a, b, r))
            return r
        if a.__class__ is SSym and b.__class__ is SSym:
            if b.id in a.neid or a.id in b.neid: return False
            if self.choose(2, '%s == %s' % (a.name, b.name)) == 0:
                self.bind_s(a, b); return True
            a.neid.add(b.id); b.neid.add(a.id)
            return False
        # strip common affixes
        pa = list(sparts(a)); pb = list(sparts(b))
        while pa and pb and self.key(pa[0]) == self.key(pb[0]): pa.pop(0); pb.pop(0)
        while pa and pb and self.key(pa[-1]) == self.key(pb[-1]): pa.pop(); pb.pop()
        if len(pa) == 1 and len(pb) == 1 and (len(pa) < len(sparts(a))):
            return self.s_eq(pa[0], pb[0])
        if not pa: return all(self.s_is_empty(p) for p in pb)
        if not pb: return all(self.s_is_empty(p) for p in pa)
        if any(p.__class__ is Run for p in pa + pb):
            return self.items_eq(self.chars(a), self.chars(b))
        r = self.s_eq_sep(pa, pb)
        if r is not None: return r
        k = ('seq',) + tuple(sorted((self.key(cat(pa)), self.key(cat(pb))), key=repr))
        r = self.memo_bool(k, '%s == %s' % (sstr(a), sstr(b)))
        if r:
            for x, y in ((a, b), (b, a)):
                if x.__class__ is SSym and x.gap is None and x.term is None and not self.cons: self.bind_s(x, y); break
            else: self.seqs.append((a, b, r))
        else: self.seqs.append((a, b, r))
        return r

    def consistent(self):
        """uninterpreted string comparisons against what the strings became"""
        for a, b, r in self.seqs:
            a = res(a); b = res(b)
            if a.__class__ is str and b.__class__ is str: e = a == b
            elif self.key(a) == self.key(b): e = True
            else: continue
            if e != r: return False
        return True

    def s_eq_sep(self, pa, pb):
        """compare at the first occurrence of a separator both sides are known to split at; None: unknown"""
        seps = []
        for p in list(pa) + list(pb):
            if p.__class__ is SSym:
                for c in p.no:
                    if c not in seps: seps.append(c)
        def split(ps, c):
            for i, p in enumerate(ps):
                if p.__class__ is str:
                    if c in p:
                        j = p.index(c)
                        return list(ps[:i]) + [p[:j]], [p[j + 1:]] + list(ps[i + 1:])
                elif not (p.__class__ is SSym and c in p.no): return None
            return 'absent'
        for c in seps:
            x = split(pa, c); y = split(pb, c)
            if x is None or y is None or (x == 'absent' and y == 'absent'): continue
            if x == 'absent' or y == 'absent': return False
            return self.s_eq(cat(x[0]), cat(y[0])) and self.s_eq(cat(x[1]), cat(y[1]))
        return None

    def items_eq(self, a, b):
        while True:
            a = flat_items(a); b = flat_items(b)
            if a and b and a[0].__class__ is Gap and a[0] is b[0]: a, b = a[1:], b[1:]; continue
            fa, x, a = self.first(a)
            fb, y, b = self.first(b)
            if fa != fb: return False
            if not fa: return True
            if not self.ceq(x, y): return False

    def boundary(self, s, n):
        """is byte index n (<= len) a char boundary of s?"""
        if n.__class__ is int and n == 0: return True
        if self.entails_eq(n, str_len(s)): return True
        pos = 0
        for p in sparts(s):
            if self.entails_eq(n, pos): return True
            pos = ladd(pos, str_len(p))
        if s.__class__ is str and n.__class__ is int:
            b = s.encode('utf8', 'surrogatepass')
            return n >= len(b) or (b[n] & 0xC0) != 0x80
        return self.memo_bool(('bnd', self.key(s), self.key(n)), 'byte %s of %s is a char boundary' % (lin_str(n) if n.__class__ is Lin else n, sstr(s)))

    def s_slice(self, s, a, b, checked=False):
        """s[a..b] (b None: to the end).  Panics (or returns None when checked) outside the contract."""
        s = res(s)
        def bad(msg):
            if checked: return None
            self.panic(msg, 'slice')
        runny = any(p.__class__ is Run for p in sparts(s)) or (s.__class__ is SSym and s.gap is not None)
        if not runny and a.__class__ is int and a > 0 and s.__class__ is SSym and b is None:
            runny = True
        if runny and a.__class__ is int and (b is None or b.__class__ is int) and (a or b is not None):
            return self.s_slice_run(s, a, b, bad)
        n = self.slen(s)
        if b is None: b = n
        a = lin_norm(a) if a.__class__ is Lin else a
        b = lin_norm(b) if b.__class__ is Lin else b
        if not self.ge0(ladd(b, a, -1), 'slice start <= end'): return bad('slice index starts after its end')
        if not self.ge0(ladd(n, b, -1), 'slice end <= len'): return bad('string slice end out of range')
        if not self.boundary(s, a) or not self.boundary(s, b): return bad('byte index is not a char boundary')
        return self.sub(s, a, b)

    def s_slice_run(self, s, a, b, bad):
        items = self.chars(s)
        pos = 0
        while pos < a:
            f, x, items = self.first(items)
            if not f: return bad('string slice start out of range')
            pos += self.fix_width(x)
        if pos != a: return bad('byte index %d is not a char boundary' % a)
        if b is None: return cat((Run(items),)) if items else ''
        if b < a: return bad('slice index starts after its end')
        out = []
        while pos < b:
            f, x, items = self.first(items)
            if not f: return bad('string slice end out of range')
            pos += self.fix_width(x); out.append(x)
        if pos != b: return bad('byte index %d is not a char boundary' % b)
        return cat((Run(tuple(out)),)) if out else ''

    def sub(self, s, a, b):
        """s[a..b] for indices known to be in range and on boundaries"""
        s = res(s)
        if self.entails_eq(a, b): return ''
        if s.__class__ is str and a.__class__ is int and b.__class__ is int:
            return s.encode('utf8', 'surrogatepass')[a:b].decode('utf8', 'surrogatepass')
        n = str_len(s)
        if self.entails_eq(a, 0) and self.entails_eq(b, n): return s
        ps = sparts(s)
        for fine in (False, True):
            if fine:            # cut inside of a part
                if not any(p.__class__ is str and len(p) > 1 or p.__class__ is Run and len(p.i) > 1 for p in ps): break
                ps = [q for p in ps for q in (p if p.__class__ is str else [Run((x,)) for x in p.i] if p.__class__ is Run and run_len(p.i) is not None else [p])]
            pos = 0; i = j = None
            for k in range(len(ps) + 1):
                if i is None and self.entails_eq(pos, a): i = k
                if self.entails_eq(pos, b): j = k
                if k < len(ps): pos = ladd(pos, str_len(ps[k]))
            if i is not None and j is not None: break
        if i is not None and j is not None: return cat(ps[i:j])
        if i is not None and i > 0: return self.sub(cat(ps[i:]), ladd(a, str_len(cat(ps[:i])), -1), ladd(b, str_len(cat(ps[:i])), -1))
        if j is not None and j < len(ps): return self.sub(cat(ps[:j]), a, b)
        if s.__class__ is SSym and s.term is not None and s.term[0] == 'sub':
            base, a0, b0 = s.term[1:]
            return self.sub(base, ladd(a0, a), ladd(a0, b))
        for k0, t in self.memo.items():
            if k0[0] == 'sub' and k0[1] == self.key(s) and self.entails_eq(t.term[2], a) and self.entails_eq(t.term[3], b): return t
        t = SSym(self, '%s[%s..%s]' % (sstr(s), a if a.__class__ is int else lin_str(a), b if b.__class__ is int else lin_str(b)), ('sub', s, a, b))
        t.len = ladd(b, a, -1)
        self.memo[('sub', self.key(s), self.key(a), self.key(b))] = t
        return t

    # ------------------------------------------------------------ equality of values
    def veq(self, a, b):
        a = self.un(a); b = self.un(b)
        ta, tb = a.__class__, b.__class__
        if ta in STRT and tb in STRT: return self.s_eq(a, b)
        if ta is bool and tb is bool: return a == b
        if (ta in (int, Lin)) and (tb in (int, Lin)): return self.eq0(ladd(a, b, -1))
        if ta is CSym or tb is CSym: return self.ceq(a, b)
        if ta is Tup and tb is Tup:
            return all(self.veq(x, y) for x, y in zip(a.f, b.f))
        if ta is RcV and tb is RcV:
            if a.o is b.o: return True
            return self.veq(a.o.c.v, b.o.c.v)
        if ta is Bits or tb is Bits: return self.bits_eq(a, b)
        if ta in (Adt, Sym) and tb in (Adt, Sym):
            if self.same(a, b) and not self.has_custom_eq(a): return True
            p = a.p if ta is Adt else a.ty
            k = self.local_impl('PartialEq', 'eq', p)
            if k: return self.truth(self.call(k, [Ref(Cell(a)), Ref(Cell(b))]))
            if ta is Sym and a.ty == 'bool' or tb is Sym and b.ty == 'bool': return self.truth(a) == self.truth(b)
            va = self.variant(a); vb = self.variant(b)
            if va != vb: return False
            a = res(a); b = res(b)
            return all(self.veq(x, y) for x, y in zip(a.f, b.f))
        if ta is Sym and a.ty == 'bool' or tb is Sym and getattr(b, 'ty', None) == 'bool': return self.truth(a) == self.truth(b)
        if ta is Seq and tb is Seq:
            ia, ib = a.i, b.i
            while True:
                fa, x, ia = self.first(ia); fb, y, ib = self.first(ib)
                if fa != fb: return False
                if not fa: return True
                if not self.veq(x, y): return False
        if ta is DSym or tb is DSym: return self.deq(a, b)
        if ta is MapV and tb is MapV:
            import stdx
            return stdx.map_eq(self, a, b)
        if self.same(a, b): return True
        self.imp('equality of %s and %s' % (ta.__name__, tb.__name__))
        return self.memo_bool(('veq', self.key(a), self.key(b)), 'opaque ==')

    def has_custom_eq(self, a):
        return False

    def deq(self, a, b):
        """equality of discriminants"""
        def opts(x):
            if x.__class__ is DSym:
                s = res(x.s)
                ad = self.prog.adts[s.p if s.__class__ is Adt else s.ty]
                if s.__class__ is Adt: return None, ad['v'][s.vi]['d']
                return s, {ad['v'][v]['d']: v for v in s.dom}
            return None, x
        sa, da = opts(a); sb, db = opts(b)
        if sa is None and sb is None: return da == db
        if sa is None: sa, da, sb, db = sb, db, sa, da
        if sb is None:
            if db not in da: return False
            if len(da) == 1: return True
            if self.choose(2, '%s == %s' % (sa.name, db)) == 0:
                self.narrow(sa, {da[db]}); return True
            self.narrow(sa, sa.dom - {da[db]}); return False
        if sa is sb: return True
        d = sorted(da)
        i = self.choose(len(d), sa.name)
        self.narrow(sa, {da[d[i]]})
        return self.deq(d[i], b)

    def un(self, v):
        """strip references"""
        while True:
            v = res(v)
            if v.__class__ is Ref: v = self.rd(v)
            elif v.__class__ is Guard: v = self.rd(Ref(v.rc.c, v.p))
            else: return v

    def un1(self, v):
        v = res(v)
        return res(self.rd(v)) if v.__class__ is Ref else v

    # ------------------------------------------------------------ bits
    def bits(self, v, n=8):
        v = res(v)
        if v.__class__ is Bits: return v.b
        if v.__class__ is int: return tuple((v >> i) & 1 for i in range(n))
        if v.__class__ is DSym:
            s = res(v.s)
            vi = self.variant(s)
            return self.bits(self.prog.adts[res(s).p]['v'][vi]['d'], n)
        raise EngineError('bits of %r' % (v,))

    def bits_op(self, op, a, b):
        n = max(len(x.b) for x in (a, b) if x.__class__ is Bits)
        out = []
        for x, y in zip(self.bits(a, n), self.bits(b, n)):
            x = res(x); y = res(y)
            x = int(x) if x.__class__ is bool else x; y = int(y) if y.__class__ is bool else y
            if x.__class__ is int and y.__class__ is int:
                out.append(x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y); continue
            if x.__class__ is int: x, y = y, x
            if y.__class__ is int:
                if op == 'BitAnd': out.append(x if y else 0)
                elif op == 'BitOr': out.append(1 if y else x)
                else: out.append(x if not y else 1 - int(self.truth(x)))
            elif x is y: out.append(0 if op == 'BitXor' else x)
            else:
                x = int(self.truth(x)); y = int(self.truth(y))
                out.append(x & y if op == 'BitAnd' else x | y if op == 'BitOr' else x ^ y)
        return self.bits_norm(tuple(out))

    def conc(self, v):
        if v.__class__ is not Bits: return v
        return sum(int(self.truth(x)) << i for i, x in enumerate(v.b))

    def bits_norm(self, b):
        b = tuple(int(res(x)) if res(x).__class__ is bool else res(x) for x in b)
        if all(x.__class__ is int for x in b): return sum(x << i for i, x in enumerate(b))
        return Bits(b)

    def bits_eq(self, a, b):
        n = max(len(x.b) for x in (a, b) if x.__class__ is Bits)
        for x, y in zip(self.bits(a, n), self.bits(b, n)):
            x = res(x); y = res(y)
            if x is y: continue
            if int(self.truth(x)) != int(self.truth(y)): return False
        return True

    # ------------------------------------------------------------ fresh values
    def fresh_t(self, ti, name, args=None):
        t = self.prog.T[ti]
        k = t['k']
        if k == 'param' and args: 
            a = args.get(t['n'])
            if a is not None: return self.fresh_t(a, name)
        if k == 'bool': return Sym(self, 'bool', name)
        if k == 'char': return CSym(self, name)
        if k in ('int', 'uint'):
            lo, hi = RANGES[t['n']]
            return Lin(0, {Var(self, name, lo, hi): 1})
        if k == 'str': return SSym(self, name)
        if k == 'ref':
            e = self.prog.T[t['e']]
            if e['k'] == 'str': return SSym(self, name)
            return Ref(Cell(self.fresh_t(t['e'], name)))
        if k == 'tuple': return Tup(tuple(self.fresh_t(x, '%s.%d' % (name, i), args) for i, x in enumerate(t['a'])))
        if k == 'adt':
            p = t['p']
            if p == 'std::string::String': return SSym(self, name)
            h = self.prog.fresh_hooks.get(p) if hasattr(self.prog, 'fresh_hooks') else None
            if h:
                r = h(self, t, name)
                if r is not None: return r
            if p in ('std::vec::Vec',):
                et = t['a'][0]
                return Seq((Gap(self, name, lambda path, g, w: path.fresh_t(et, name + '[]')),))
            if p == 'std::boxed::Box': return Ref(Cell(self.fresh_t(t['a'][0], name)))
            a = self.prog.adts.get(p)
            if a and (a['local'] or p in (OPTION, RESULT, CFLOW, 'std::cmp::Ordering', 'std::borrow::Cow')):
                s = Sym(self, p, name, frozenset(range(len(a['v']))))
                s.meta = {'args': dict(zip(a['g'], t['a']))}
                return s
        return Opq(self, t['s'])

    # ------------------------------------------------------------ memory
    def getf(self, v, i):
        v = res(v)
        t = v.__class__
        if t is Adt or t is Tup or t is Clo: return v.f[i]
        if t is Ref: return v if i == 0 else UNINIT
        if t is Sym:
            if v.dom is not None and len(v.dom) == 1:
                self.settle(v); return v.val.f[i]
            raise EngineError('field %r of undetermined %r (%s)' % (i, v, v.ty))
        if v is UNINIT: return UNINIT
        if t is Opq:
            r = self.memo.get(('opf', v.id, i))
            if r is None:
                r = self.memo[('opf', v.id, i)] = Opq(self, v.what + '.f')
            return r
        raise EngineError('field %r of %s' % (i, t.__name__))

    def step(self, v, s):
        if s.__class__ is int: return self.getf(v, s)
        v = res(v)
        if s[0] == 'd':
            if v.__class__ is Sym:
                if v.dom is not None: self.narrow(v, {s[1]})
                return res(v)
            if v.__class__ is Adt and v.vi != s[1]: raise EngineError('downcast mismatch %s %s' % (v.p, s))
            return v
        if s[0] == 'i':
            if v.__class__ is Seq: return flat_items(v.i)[s[1]]
            raise EngineError('index into %s' % v.__class__.__name__)
        if s[0] == 'sl':
            it = flat_items(v.i)
            return Seq(it[s[1]:s[2]])
        if s[0] == 'mv':
            return self.map_flat(v).e[s[1]][1]
        if s[0] == 'rcv':
            return v
        raise EngineError('step %r' % (s,))

    def rd(self, r):
        v = r.c.v
        for s in r.p: v = self.step(v, s)
        return v

    def setp(self, v, p, new):
        if not p: return new
        v = res(v)
        s = p[0]
        if v is UNINIT or v.__class__ is Opq: return self.setp(v, p[1:], new)
        if s.__class__ is int:
            if v.__class__ is Sym:
                self.getf(v, s); v = res(v)
            if v.__class__ is Ref:
                return v
            f = list(v.f)
            f[s] = self.setp(f[s], p[1:], new)
            if v.__class__ is Adt: return Adt(v.p, v.vi, tuple(f))
            if v.__class__ is Tup: return Tup(tuple(f))
            return Clo(v.k, tuple(f))
        if s[0] == 'd':
            return self.setp(self.step(v, s), p[1:], new)
        if s[0] == 'i':
            it = list(flat_items(v.i))
            it[s[1]] = self.setp(it[s[1]], p[1:], new)
            return Seq(tuple(it))
        if s[0] == 'sl':
            it = flat_items(v.i)
            sub = self.setp(Seq(it[s[1]:s[2]]), p[1:], new)
            return Seq(it[:s[1]] + sub.i + (it[s[2]:] if s[2] is not None else ()))
        if s[0] == 'mv':
            m = self.map_flat(v)
            e = list(m.e)
            e[s[1]] = (e[s[1]][0], self.setp(e[s[1]][1], p[1:], new))
            return MapV(tuple(e), m.g)
        raise EngineError('setp %r' % (s,))

    def wr(self, r, new):
        if r.c.tag is not None:
            f = self.frames[-1] if self.frames else None
            self.writes.append((r.c.tag, r.p, f.key if f else '?', f.span if f else None))
        r.c.v = self.setp(r.c.v, r.p, new) if r.p else new

    # ------------------------------------------------------------ calls
    def local_impl(self, trait, method, adt):
        for im, k in self.prog.impls.get((trait, method), []):
            t = self.prog.T[im['st']]
            if t['k'] == 'adt' and t['p'] == adt and k in self.prog.B: return k
        return None

    def adt_of(self, v):
        v = self.un(v)
        if v.__class__ is Adt: return v.p
        if v.__class__ is Sym: return v.ty
        return None

    def callv(self, f, args):
        """call a function value"""
        f0 = f
        ref = None
        f = res(f)
        while f.__class__ is Ref:
            ref = f; f = res(self.rd(f))
        if f.__class__ is Clo:
            b = self.prog.B.get(f.k)
            if b is None: raise EngineError('closure body missing ' + f.k)
            st = self.prog.T[b['locals'][1][0]]
            slf = (ref or Ref(Cell(f))) if st['k'] == 'ref' else f
            return self.call(f.k, [slf] + list(args))
        if f.__class__ is FnV:
            return self.call_fn(f.d, list(args), None, None)
        if f.__class__ is Adt and f.p == 'core::fmt::rt::Argument': raise EngineError('arg')
        if callable(f): return f(*args)
        if f.__class__ is Opq:
            self.imp('call of opaque function'); return Opq(self, 'result')
        raise EngineError('call of %s' % f.__class__.__name__)

    def call(self, key, args):
        if key in self.cfg.opaque:
            return self.opaque_call(key, args)
        return self.call_body(key, args)

    def call_body(self, key, args):
        b = self.prog.B[key]
        if len(self.frames) > self.cfg.CALLS:
            self.bounded = True; raise Cut()
        fr = Frame(b, key)
        n = b['args']
        if n != len(args):
            raise EngineError('arity %s %d %d' % (key, n, len(args)))
        for i, a in enumerate(args): fr.L[i + 1].v = a
        self.frames.append(fr)
        self.calls.append(key)
        try:
            return self.run(fr)
        finally:
            self.frames.pop()

    def opaque_call(self, key, args):
        h = self.cfg.opaque[key] if isinstance(self.cfg.opaque, dict) else None
        if h: return h(self, key, args)
        k = ('app', key) + tuple(self.key(a) for a in args)
        if k not in self.memo:
            b = self.prog.B[key]
            self.memo[k] = self.fresh_t(b['locals'][0][0], '%s(%s)' % (short(key), ', '.join(vstr(self, a) for a in args)))
        return self.memo[k]

    def call_fn(self, d, args, destty, argtys):
        """d: function descriptor from the dump"""
        import stdm
        return stdm.dispatch(self, d, args, destty, argtys)

    # ------------------------------------------------------------ interpreter
    def const(self, k):
        if 'fn' in k: return FnV(k['fn'])
        v = k['v']
        if v is None: return Opq(self, 'const')
        if 'i' in v:
            t = self.prog.T[k['t']]
            if t['k'] == 'bool': return bool(v['i'])
            if t['k'] == 'adt':
                a = self.prog.adts.get(t['p'])
                if a and a['enum']:
                    for i, x in enumerate(a['v']):
                        if x['d'] == v['i'] and not x['f']: return Adt(t['p'], i, ())
                if a and not a['enum'] and a['v'] and len(a['v'][0]['f']) == 1: return Adt(t['p'], 0, (v['i'],))
            return v['i']
        if 'str' in v: return v['str']
        if 'bytes' in v:
            return Ref(Cell(Seq(tuple(v['bytes']))))
        if 'z' in v:
            t = self.prog.T[k['t']]
            if t['k'] == 'tuple': return UNIT
            if t['k'] == 'closure': return Clo(t['p'], ())
            if t['k'] == 'adt': return Adt(t['p'], 0, ()) if self.prog.adts.get(t['p']) else Opq(self, t['s'])
            if t['k'] == 'array': return Seq(())
            return Opq(self, t['s'])
        if 'refi' in v: return Ref(Cell(v['refi']))
        if 'static' in v:
            c = self.consts.get(('static', v['static']))
            if c is None: c = self.consts[('static', v['static'])] = Cell(Opq(self, 'static ' + v['static']))
            return Ref(c)
        if 'uneval' in v:
            kk = (v['uneval'], v.get('promoted'))
            if kk in self.consts: return self.consts[kk]
            b = self.prog.B.get(v['uneval'])
            if b is None: return Opq(self, 'const ' + v['uneval'])
            if v.get('promoted') is not None: b = b['prom'][v['promoted']]
            fr = Frame(b, v['uneval'])
            self.frames.append(fr)
            try: r = self.run(fr)
            finally: self.frames.pop()
            self.consts[kk] = r
            return r
        return Opq(self, 'const %s' % v)

    def lv(self, fr, pl):
        c = fr.L[pl[0]]; p = ()
        for e in pl[1]:
            if e == '*':
                v = c.v
                for s in p: v = self.step(v, s)
                v = res(v)
                if v.__class__ is Ref: c, p = v.c, v.p
                elif v.__class__ is Guard: c, p = v.rc.c, v.p
                else: c, p = Cell(v), ()
                continue
            t = e[0]
            if t == 'f': p = p + (e[1],)
            elif t == 'd': p = p + (('d', e[1]),)
            elif t == 'i':
                r = Ref(c, p); sq = res(self.rd(r))
                it, k = self.locate(sq.i, fr.L[e[1]].v)
                if k is None: raise EngineError('index out of range after bounds check')
                r.c.v = self.setp(r.c.v, p, Seq(it)) if p else Seq(it)
                p = p + (('i', k),)
            elif t == 'c':
                r = Ref(c, p); sq = res(self.rd(r))
                if e[3]:
                    its = sq.i; n = e[1]
                    its = self.force(its) if any(x.__class__ is Gap for x in flat_items(its)) else flat_items(its)
                    k = len(its) - n
                    r.c.v = self.setp(r.c.v, p, Seq(its)) if p else Seq(its)
                else:
                    its, k = self.locate(sq.i, e[1])
                    r.c.v = self.setp(r.c.v, p, Seq(its)) if p else Seq(its)
                p = p + (('i', k),)
            elif t == 's':
                r = Ref(c, p); sq = res(self.rd(r))
                its = self.force(sq.i)
                r.c.v = self.setp(r.c.v, p, Seq(its)) if p else Seq(its)
                to = len(its) - e[2] if e[3] else e[2]
                p = p + (('sl', e[1], to),)
            else: raise EngineError('proj %r' % (e,))
        return c, p

    def op(self, fr, o):
        if o[0] == 'k': return self.const(o[1])
        pl = o[1]
        if not pl[1]: v = fr.L[pl[0]].v
        else:
            c, p = self.lv(fr, pl)
            v = c.v
            for s in p: v = self.step(v, s)
        return v

    def rv(self, fr, r, st):
        k = r[0]
        if k == 'use': return self.op(fr, r[1])
        if k == 'ref':
            c, p = self.lv(fr, r[2])
            if not p and c.v.__class__ in STRT and r[2][1] and r[2][1][-1] == '*':
                # reborrow of a str
                b = self.base_is_str(fr, r[2])
                if b: return c.v
            return Ref(c, p)
        if k == 'discr':
            c, p = self.lv(fr, r[1])
            v = c.v
            for s in p: v = self.step(v, s)
            v = res(v)
            if v.__class__ is Adt:
                return self.prog.adts[v.p]['v'][v.vi]['d']
            if v.__class__ is Sym and v.dom is not None:
                if len(v.dom) == 1: self.settle(v); return self.prog.adts[v.ty]['v'][v.val.vi]['d']
                return DSym(v)
            if v.__class__ is Opq:
                self.imp('discriminant of opaque %s' % v.what)
                kk = ('opd', v.id)
                ty = self.prog.T[r[2]] if len(r) > 2 else None
                s = self.memo.get(kk)
                if s is None:
                    raise Cut()
                return DSym(s)
            raise EngineError('discr of %s' % v.__class__.__name__)
        if k == 'agg':
            kd = r[1]
            ops = tuple(self.op(fr, o) for o in r[2])
            if kd[0] == 'adt': return Adt(kd[1], kd[2], ops)
            if kd[0] == 'tuple': return Tup(ops)
            if kd[0] == 'array': return Seq(ops)
            if kd[0] == 'closure': return Clo(kd[1], ops)
            raise EngineError('agg %s' % kd[0])
        if k == 'cast':
            v = self.op(fr, r[2])
            return self.cast(r[1], v, r[3], r[4] if len(r) > 4 else None)
        if k == 'bin': return self.binop(r[1], self.op(fr, r[2]), self.op(fr, r[3]))
        if k == 'un':
            v = res(self.op(fr, r[2]))
            if r[1] == 'Not':
                if v.__class__ is bool: return not v
                if v.__class__ is Sym and v.ty == 'bool': return not self.truth(v)
                w = None
                if not st[1][1]:
                    t = self.prog.T[fr.b['locals'][st[1][0]][0]]
                    if t['k'] in ('int', 'uint'): w = RANGES[t['n']]
                if w is None and (v.__class__ is int or v.__class__ is Bits): w = (0, 255)
                if v.__class__ is Bits:
                    n = (w[1] - w[0]).bit_length()
                    if w[0] == 0 and n <= 16: return self.bits_norm(tuple(1 - int(self.truth(x)) for x in (v.b + (0,) * n)[:n]))
                    v = self.conc(v)
                if v.__class__ is int or v.__class__ is Lin and w: return ladd(w[0] + w[1], v, -1)
            if r[1] == 'Neg': return lmul(v, -1)
            if r[1] == 'PtrMetadata':
                s = self.un(v)
                if s.__class__ is Seq: return items_len(s.i)
                if s.__class__ in STRT: return self.slen(s)
            self.imp('unop ' + r[1]); return Opq(self, 'unop')
        if k == 'repeat':
            n = r[2]
            if isinstance(n, int) and n <= 64:
                v = self.op(fr, r[1]); return Seq((v,) * n)
        self.imp('rvalue %s' % (r[:2],))
        return Opq(self, 'rvalue')

    def base_is_str(self, fr, pl):
        c, p = self.lv(fr, [pl[0], pl[1][:-1]])
        v = c.v
        for s in p: v = self.step(v, s)
        return res(v).__class__ is not Ref

    def cast(self, kind, v, to, frm):
        v = res(v)
        t = self.prog.T[to]
        if kind.startswith('IntToInt'):
            if v.__class__ is CSym:
                if len(v.iv) == 1 and v.iv[0][0] == v.iv[0][1]: v = v.iv[0][0]
                elif t['k'] in ('int', 'uint'):
                    lo, hi = RANGES[t['n']]
                    if v.iv[-1][1] <= hi or self.cin(v, [(0, hi)], '%s fits %s' % (v.name, t['n'])): return v
                    kk = ('castc', v.id, t['n'])
                    if kk not in self.memo:
                        self.memo[kk] = Lin(0, {Var(self, '%s as %s (truncated)' % (v.name, t['n']), lo, hi): 1})
                    return self.memo[kk]
                elif t['k'] == 'char': return v
            if v.__class__ is bool: v = int(v)
            if v.__class__ is DSym:
                s = res(v.s)
                vi = self.variant(s)
                v = self.prog.adts[res(s).p]['v'][vi]['d']
            if v.__class__ is int and t['k'] in ('int', 'uint'):
                lo, hi = RANGES[t['n']]
                if not lo <= v <= hi:
                    v = (v - lo) % (hi - lo + 1) + lo
                return v
            if v.__class__ is Lin and t['k'] in ('int', 'uint'):
                lo, hi = RANGES[t['n']]
                if self.entails_ge0(ladd(v, lo, -1)) and self.entails_ge0(ladd(hi, v, -1)): return v
                self.imp('narrowing cast'); return self.fresh_t(to, 'cast')
            if v.__class__ is Sym and v.ty == 'bool': return int(self.truth(v))
            return v
        return v

    def binop(self, o, a, b):
        a = res(a); b = res(b)
        ta, tb = a.__class__, b.__class__
        num = (int, Lin)
        if ta is bool and tb is int: b = bool(b); tb = bool
        if ta is int and tb is bool: a = bool(a); ta = bool
        if o in ('Eq', 'Ne'):
            if ta is Ref and tb is Ref:
                import stdm
                r = stdm.same_place(self, a, b)
                return r if o == 'Eq' else not r
            r = self.veq(a, b) if not (ta is DSym or tb is DSym) else self.deq(a, b)
            return r if o == 'Eq' else not r
        if o in ('Lt', 'Le', 'Gt', 'Ge'):
            if ta is CSym or tb is CSym:
                if ta is int or tb is int:
                    if tb is int:
                        iv = {'Lt': [(0, b - 1)], 'Le': [(0, b)], 'Gt': [(b + 1, 0x10FFFF)], 'Ge': [(b, 0x10FFFF)]}[o]
                        return self.cin(a, iv) if iv[0][0] <= iv[0][1] else False
                    iv = {'Gt': [(0, a - 1)], 'Ge': [(0, a)], 'Lt': [(a + 1, 0x10FFFF)], 'Le': [(a, 0x10FFFF)]}[o]
                    return self.cin(b, iv) if iv[0][0] <= iv[0][1] else False
                self.imp('char order'); return self.memo_bool(('cmp', o, self.key(a), self.key(b)), 'char order')
            if ta in num and tb in num:
                if o == 'Lt': return self.ge0(ladd(ladd(b, a, -1), -1), '%s < %s' % (vs(a), vs(b)))
                if o == 'Le': return self.ge0(ladd(b, a, -1), '%s <= %s' % (vs(a), vs(b)))
                if o == 'Gt': return self.ge0(ladd(ladd(a, b, -1), -1), '%s > %s' % (vs(a), vs(b)))
                return self.ge0(ladd(a, b, -1), '%s >= %s' % (vs(a), vs(b)))
            if ta is bool or tb is bool:
                a = int(self.truth(a)); b = int(self.truth(b))
                return {'Lt': a < b, 'Le': a <= b, 'Gt': a > b, 'Ge': a >= b}[o]
        if o in ('AddWithOverflow', 'SubWithOverflow', 'MulWithOverflow', 'Add', 'Sub', 'AddUnchecked', 'SubUnchecked', 'Mul', 'MulUnchecked'):
            if ta in num and tb in num:
                if o[:3] == 'Add': r = ladd(a, b)
                elif o[:3] == 'Sub': r = ladd(a, b, -1)
                else:
                    if tb is not int: a, b = b, a
                    if b.__class__ is not int:
                        self.imp('nonlinear'); return Opq(self, 'mul')
                    r = lmul(a, b)
                if o.endswith('WithOverflow'):
                    return Tup((r, ('ovf', r)))
                return r
        if o in ('BitAnd', 'BitOr', 'BitXor'):
            if (ta is bool or ta is Sym and a.ty == 'bool') and (tb is bool or tb is Sym and b.ty == 'bool'):
                a = self.truth(a)
                if o == 'BitAnd': return self.truth(b) if a else False
                if o == 'BitOr': return True if a else self.truth(b)
                return a != self.truth(b)
            if ta is DSym: a = self.bits_norm(self.bits(a)); ta = a.__class__
            if tb is DSym: b = self.bits_norm(self.bits(b)); tb = b.__class__
            if ta is int and tb is int: return a & b if o == 'BitAnd' else a | b if o == 'BitOr' else a ^ b
            if ta is Bits or tb is Bits:
                if ta in (Bits, int) and tb in (Bits, int): return self.bits_op(o, a, b)
        if o == 'Cmp' and ta in num and tb in num:
            d = ladd(a, b, -1)
            if self.eq0(d): i = 1
            else: i = 2 if self.ge0(d) else 0
            return Adt('std::cmp::Ordering', i, ())
        if o in ('Rem', 'Div') and ta in num and tb in num:
            if ta is int and tb is int:
                if b == 0: return 0
                q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
                return q if o == 'Div' else a - b * q
            if not (self.entails_ge0(a) and self.entails_ge0(ladd(b, -1))):
                self.imp('signed division'); return Opq(self, 'div')
            if self.ge0(ladd(ladd(b, a, -1), -1), '%s < %s' % (vs(a), vs(b))): return 0 if o == 'Div' else a
            kk = ('div', self.key(a), self.key(b))
            qr = self.memo.get(kk)
            if qr is None:
                q = Lin(0, {Var(self, 'quotient', 1, U64): 1})
                if tb is int:
                    r = ladd(a, lmul(q, b), -1)
                else:
                    r = Lin(0, {Var(self, 'remainder', 0, U64): 1})
                    self.assume_ge0(ladd(ladd(a, b, -1), r, -1))
                    self.assume_ge0(ladd(ladd(a, q, -1), 0))
                self.assume_ge0(r); self.assume_ge0(ladd(ladd(b, r, -1), -1))
                if tb is not int:
                    # a = b + r is the only case for a < 2b; elsewhere r and q are merely bounded
                    if self.ge0(ladd(ladd(a, lmul(b, 2), -1), 0), '%s >= 2*%s' % (vs(a), vs(b))): self.imp('nonlinear remainder')
                    else:
                        r = ladd(a, b, -1); q = 1
                qr = self.memo[kk] = (q, r)
            return qr[0] if o == 'Div' else qr[1]
        if ta is Bits or tb is Bits:
            if o in ('Lt', 'Le', 'Gt', 'Ge', 'Add', 'Sub', 'Mul', 'Rem', 'Div', 'Cmp') or o.endswith('WithOverflow') or o.startswith('Sh'):
                return self.binop(o, self.conc(a), self.conc(b))
        if ta is int and tb is int:
            if o.startswith('Shl'): return a << b
            if o.startswith('Shr'): return a >> b
        if o == 'Offset' or o == 'Cmp': pass
        self.imp('binop %s on %s,%s' % (o, ta.__name__, tb.__name__))
        return Opq(self, 'binop')

    def run(self, fr):
        B = fr.b['bb']
        bb = 0
        L = fr.L
        cfg = self.cfg
        while True:
            blk = B[bb]
            n = fr.visits.get(bb, 0) + 1
            fr.visits[bb] = n
            if n > cfg.LOOP:
                self.bounded = True; raise Cut()
            for st in blk['s']:
                k = st[0]
                if k == '=':
                    if len(st) > 3 and st[3]: fr.span = st[3]
                    v = self.rv(fr, st[2], st)
                    pl = st[1]
                    if not pl[1]: L[pl[0]].v = v
                    else:
                        c, p = self.lv(fr, pl)
                        self.wr(Ref(c, p), v)
                elif k == 'dead':
                    pass
                elif k == 'sd':
                    c, p = self.lv(fr, st[1])
                    r = Ref(c, p); v = res(self.rd(r))
                    self.imp('set discriminant')
            self.steps += 1
            if self.steps > cfg.STEPS: self.bounded = True; raise Cut()
            t = blk['t']
            k = t[0]
            if k == 'goto': bb = t[1]; continue
            if k == 'switch':
                if len(t) > 5 and t[5]: fr.span = t[5]
                bb = self.switch(fr, t); continue
            if k == 'ret': return L[0].v
            if k == 'drop':
                c, p = self.lv(fr, t[1])
                try:
                    v = self.rd(Ref(c, p))
                except EngineError:
                    v = UNINIT
                self.drop(v)
                bb = t[2]; continue
            if k == 'call':
                if t[5]: fr.span = t[5]
                f = t[1]
                args = [self.op(fr, a) for a in t[2]]
                if f[0] == 'k' and 'fn' in f[1]:
                    r = self.call_fn(f[1]['fn'], args, t[6] if len(t) > 6 else None, t[7] if len(t) > 7 else None)
                else:
                    r = self.callv(self.op(fr, f), args)
                if t[4] is None: raise EngineError('diverging call returned')
                if t[5]: fr.span = t[5]
                pl = t[3]
                if not pl[1]: L[pl[0]].v = r
                else:
                    c, p = self.lv(fr, pl)
                    self.wr(Ref(c, p), r)
                bb = t[4]; continue
            if k == 'assert':
                if len(t) > 5 and t[5]: fr.span = t[5]
                bb = self.assert_(fr, t); continue
            if k == 'unreachable': raise Prune()
            raise EngineError('terminator %s' % k)

    def assert_(self, fr, t):
        kind = t[3]
        v = self.op(fr, t[1])
        if isinstance(v, tuple) and v[0] == 'ovf':
            r = v[1]
            ty = None
            # operand type of the checked operation: the type of the tuple's first component
            pl = t[1][1]
            tt = self.prog.T[fr.b['locals'][pl[0]][0]]
            it = self.prog.T[tt['a'][0]]
            lo, hi = RANGES[it['n']]
            if not self.ge0(ladd(hi, r, -1), 'no overflow') or not self.ge0(ladd(r, lo, -1), 'no underflow'):
                self.panic('attempt to %s with overflow' % kind.split(':')[-1].lower(), 'overflow')
            return t[4]
        if kind == 'other': return t[4]
        b = self.truth(v) if res(v).__class__ is not Opq else True
        if b == t[2]: return t[4]
        self.panic('assertion %s' % kind, 'bounds' if 'bounds' in kind else 'assert')

    def switch(self, fr, t):
        v = res(self.op(fr, t[1]))
        if isinstance(v, tuple) and v[0] == 'ovf': v = False
        if v.__class__ is bool: v = int(v)
        if v.__class__ is int:
            for x, b in t[2]:
                if x == v: return b
            return t[3]
        if v.__class__ is Sym and v.ty == 'bool':
            b = int(self.truth(v))
            for x, bb in t[2]:
                if x == b: return bb
            return t[3]
        if v.__class__ is DSym:
            s = res(v.s)
            if s.__class__ is Adt:
                d = self.prog.adts[s.p]['v'][s.vi]['d']
                for x, b in t[2]:
                    if x == d: return b
                return t[3]
            vs_ = self.prog.adts[s.ty]['v']
            m = {x: b for x, b in t[2]}
            groups = {}
            for vi in sorted(s.dom):
                groups.setdefault(m.get(vs_[vi]['d'], t[3]), set()).add(vi)
            gs = sorted(groups.items(), key=lambda g: min(g[1]))
            if len(gs) > 1:
                i = self.choose(len(gs), '%s in {%s}' % (s.name, '|'.join(','.join(vs_[x]['n'] for x in sorted(g[1])) for g in gs)))
            else: i = 0
            self.trace.append((fr.key, t[5] if len(t) > 5 else None, s.name, sorted(vs_[x]['n'] for x in gs[i][1])))
            self.narrow(s, gs[i][1])
            return gs[i][0]
        if v.__class__ is CSym:
            for x, b in t[2]:
                if self.cin(v, [(x, x)]): return b
            return t[3]
        if v.__class__ is Lin:
            for x, b in t[2]:
                if self.eq0(ladd(v, -x)): return b
            return t[3]
        if v.__class__ is Bits:
            for x, b in t[2]:
                if self.bits_eq(v, x): return b
            return t[3]
        if v.__class__ is Opq:
            self.imp('switch on opaque %s' % v.what)
            tg = sorted(set([b for x, b in t[2]] + [t[3]]))
            return tg[self.choose(len(tg), 'opaque switch')]
        raise EngineError('switch on %s' % v.__class__.__name__)

    def drop(self, v):
        t = v.__class__
        if t is Guard:
            if v.live:
                v.live = False
                if v.mut: v.rc.wr -= 1
                else: v.rc.rd -= 1
                if v in v.rc.by: v.rc.by.remove(v)
            return
        if t is Sym or t is SSym:
            if v.val is not None: self.drop(v.val)
            return
        if t in (Adt, Tup, Clo):
            for x in v.f: self.drop(x)
        elif t is It:
            for x in v.d:
                if x.__class__ in (Adt, Tup, Clo, Guard, It): self.drop(x)

def vs(v):
    return lin_str(v) if v.__class__ is Lin else str(v)

def sstr(s):
    s = res(s)
    if s.__class__ is str: return repr(s)
    if s.__class__ is SSym: return s.name
    if s.__class__ is Cat: return '+'.join(sstr(p) if p.__class__ is not Run else '<chars>' for p in s.p)
    return str(s)

def vstr(path, v, d=0):
    v = res(v)
    t = v.__class__
    if d > 6: return '…'
    if t in STRT: return sstr(v)
    if t is Ref: return '&' + vstr(path, path.rd(v), d + 1)
    if t is RcV: return v.o.name
    if t is WeakV: return 'weak(%s)' % (v.o.name if v.o else '-')
    if t is Adt:
        a = path.prog.adts.get(v.p)
        n = a['v'][v.vi]['n'] if a else short(v.p)
        if short(v.p) == 'RcRefCell' or short(v.p) == 'WeakRefCell': return vstr(path, v.f[0], d)
        return n + ('(%s)' % ', '.join(vstr(path, x, d + 1) for x in v.f) if v.f else '')
    if t is Tup: return '(%s)' % ', '.join(vstr(path, x, d + 1) for x in v.f)
    if t is Seq: return '[%s]' % ', '.join('…' if x.__class__ is Gap else vstr(path, x, d + 1) for x in flat_items(v.i))
    if t is Sym: return '?%s' % v.name
    if t is Lin: return lin_str(v)
    if t is MapV:
        m = path.map_flat(v)
        return '{%s%s}' % (', '.join('%s: %s' % (vstr(path, k, d + 1), vstr(path, x, d + 1)) for k, x in m.e), ', …' if m.g else '')
    if t is CSym: return 'char∈%s' % iv_str(v.iv)
    if t in (int, bool): return str(v)
    return '<%s>' % t.__name__

def iv_str(iv):
    return '{%s}' % ','.join('%X' % a if a == b else '%X-%X' % (a, b) for a, b in iv[:8]) + ('…' if len(iv) > 8 else '')

def iv_and(a, b):
    out = []
    for x, y in a:
        for u, w in b:
            lo, hi = max(x, u), min(y, w)
            if lo <= hi: out.append((lo, hi))
    return sorted(out)

def iv_sub(a, b):
    out = list(a)
    for u, w in b:
        nxt = []
        for x, y in out:
            if w < x or u > y: nxt.append((x, y)); continue
            if x < u: nxt.append((x, u - 1))
            if y > w: nxt.append((w + 1, y))
        out = nxt
    return out

def iv_union(a):
    a = sorted(a); out = []
    for x, y in a:
        if out and x <= out[-1][1] + 1: out[-1] = (out[-1][0], max(out[-1][1], y))
        else: out.append((x, y))
    return out

# ---------------------------------------------------------------- exploration
class Outcome:
    __slots__ = ('path', 'kind', 'val', 'panic', 'sc')

class WholeCase(Exception):
    """an exception about the whole case, not about one element of its partition"""

def explore(prog, cfg, scenario, max_paths=20000, deadline=None, base=()):
    """scenario(path) -> value; yields Outcome for every element of the partition"""
    import time
    prefix = list(base)
    n = 0
    stats = {'paths': 0, 'pruned': 0, 'cut': 0, 'imprecise': 0, 'truncated': False}
    while True:
        path = Path(prog, cfg, tuple(prefix))
        o = Outcome(); o.path = path; o.val = None; o.panic = None; o.kind = None
        try:
            o.val = scenario(path); o.kind = 'ret'
        except Panic as e:
            o.kind = 'panic'; o.panic = e
        except Cut:
            stats['cut'] += 1
        except Prune:
            stats['pruned'] += 1
        except (KeyboardInterrupt, WholeCase):
            raise
        except Exception as e:
            # the analysis itself does not model something on this element: undecided, never a violation
            if DEV: raise
            o.kind = 'undecided'; path.imprecise.append(('%s: %s' % (e.__class__.__name__, e), path.where()))
        if o.kind is not None:
            stats['paths'] += 1
            if path.imprecise: stats['imprecise'] += 1
            yield o, stats
        ch = path.choices
        i = len(ch) - 1
        while i >= 0 and ch[i][1] + 1 >= ch[i][0]: i -= 1
        if i < len(base): break
        prefix = [c[1] for c in ch[:i]] + [ch[i][1] + 1]
        n += 1
        if n >= max_paths or (deadline and time.time() > deadline):
            stats['truncated'] = True
            break

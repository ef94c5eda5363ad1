"""Abstract interpreter over the MIR of crate xml_dom (values, abstract states, transfer functions).

The abstract domain is described in DESIGN.md.  A `Path` is one element of the trace partition: every
undetermined fact is settled by `choose`, and `explore` enumerates the partition.  Nothing of the
analysed crate is executed: the transfer functions work on abstract values only.
"""
import json

# ---------------------------------------------------------------- exceptions
class Prune(Exception):
    """this element of the partition is empty (contradictory facts)"""

class Cut(Prune):
    """this element leaves the bounds of the shape domain (counted in the evidence)"""

class Panic(Exception):
    def __init__(self, msg, where, kind='panic'):
        Exception.__init__(self, msg)
        self.msg, self.where, self.kind = msg, where, kind

class EngineError(Exception):
    pass

# ---------------------------------------------------------------- values
class Cell:
    __slots__ = ('v', 'tag')
    def __init__(self, v=None, tag=None):
        self.v = v; self.tag = tag

class _U:
    def __repr__(self): return 'UNINIT'
UNINIT = _U()

class Ref:
    __slots__ = ('c', 'p')
    def __init__(self, c, p=()): self.c = c; self.p = p

class Adt:
    __slots__ = ('p', 'vi', 'f')
    def __init__(self, p, vi, f): self.p = p; self.vi = vi; self.f = f

class Tup:
    __slots__ = ('f',)
    def __init__(self, f): self.f = f

class Seq:
    """Vec / slice / array: tuple of values and Gap summaries"""
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

class Gap:
    """summary of zero or more consecutive elements"""
    __slots__ = ('id', 'make', 'bound', 'min', 'root', 'count', 'var', 'meta', 'name', 'facts')
    def __init__(self, path, name, make, root=None):
        self.id = path.nid(); self.name = name; self.make = make; self.bound = None; self.min = 0
        self.root = root or self; self.count = 0; self.meta = {} if root is None else root.meta
        self.facts = ()          # predicates known to hold of every summarised element
        self.var = Var(path, 'len(%s)' % name, 0, 2**62, self)

class MapV:
    __slots__ = ('e', 'g')
    def __init__(self, e, g): self.e = e; self.g = g

class MGap:
    """summary of zero or more further entries of a map"""
    __slots__ = ('id', 'make', 'bound', 'absent', 'root', 'count', 'var', 'name', 'min', 'facts')
    def __init__(self, path, name, make, root=None):
        self.id = path.nid(); self.name = name; self.make = make; self.bound = None; self.absent = []
        self.root = root or self; self.count = 0; self.min = 0; self.facts = ()
        self.var = Var(path, 'len(%s)' % name, 0, 2**62, self)

class Obj:
    """an Rc allocation"""
    __slots__ = ('id', 'c', 'name', 'node', 'dead')
    def __init__(self, path, v, name=None):
        self.id = path.nid(); self.c = Cell(v); self.name = name or 'new%d' % self.id
        self.node = None; self.dead = False

class RcV:
    __slots__ = ('o',)
    def __init__(self, o): self.o = o

class WeakV:
    __slots__ = ('o',)
    def __init__(self, o): self.o = o

class RCell:
    """a RefCell with its borrow state"""
    __slots__ = ('id', 'c', 'rd', 'wr', 'by')
    def __init__(self, path, v):
        self.id = path.nid(); self.c = Cell(v); self.rd = 0; self.wr = 0; self.by = []

class Guard:
    __slots__ = ('rc', 'mut', 'p', 'live', 'at', 'id')
    def __init__(self, path, rc, mut, p, at):
        self.rc = rc; self.mut = mut; self.p = p; self.live = True; self.at = at; self.id = path.nid()

class Sym:
    """undetermined value of an ADT / scalar type"""
    __slots__ = ('id', 'ty', 'name', 'val', 'dom', 'hook', 'mk', 'meta')
    def __init__(self, path, ty, name, dom=None, mk=None, hook=None):
        self.id = path.nid(); self.ty = ty; self.name = name; self.val = None
        self.dom = dom; self.mk = mk; self.hook = hook; self.meta = None
    def __repr__(self): return '?%s' % self.name

class DSym:
    __slots__ = ('s',)
    def __init__(self, s): self.s = s

class SSym:
    """undetermined string"""
    __slots__ = ('id', 'name', 'val', 'ne', 'nonempty', 'gap', 'term', 'no', 'var', 'neid', 'len', 'nm')
    def __init__(self, path, name, term=None):
        self.id = path.nid(); self.name = name; self.val = None; self.ne = set(); self.nonempty = False
        self.gap = None; self.term = term; self.no = frozenset(); self.neid = set(); self.len = None
        self.nm = None           # known outcome of parsing it as a name: 'part' (a name without prefix) or an error code
        self.var = Var(path, 'len(%s)' % name, 0, 2**62, self)
        path.ssyms[self.id] = self
    def __repr__(self): return '$%s' % self.name

NAME_START = [(0x41, 0x5A), (0x5F, 0x5F), (0x61, 0x7A), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D), (0x37F, 0x1FFF),
              (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF), (0xF900, 0xFDCF), (0xFDF0, 0xFFFD), (0x10000, 0xEFFFF)]
NAME_CHAR = NAME_START + [(0x2D, 0x2D), (0x2E, 0x2E), (0x30, 0x39), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]
def name_outcome(s):
    """specified outcome of parsing constant s as a qualified name: 'part', 'pair' or an error code"""
    ps = s.split(':')
    if s == '' or len(ps) > 2 or '' in ps: return 'Syntax'
    for p in ps:
        if not all(any(a <= ord(c) <= b for a, b in (NAME_CHAR if i else NAME_START)) for i, c in enumerate(p)): return 'InvalidCharacter'
    return 'part' if len(ps) == 1 else 'pair'

class Run:
    """a run of (partly) materialised characters as a string part"""
    __slots__ = ('i',)
    def __init__(self, i): self.i = i

class Cat:
    __slots__ = ('p',)
    def __init__(self, p): self.p = p

class CSym:
    """undetermined char: a set of code point intervals"""
    __slots__ = ('id', 'iv', 'name')
    def __init__(self, path, name, iv=None):
        self.id = path.nid(); self.name = name; self.iv = iv or [(0, 0xD7FF), (0xE000, 0x10FFFF)]

class Var:
    __slots__ = ('id', 'name', 'lo', 'hi', 'src')
    def __init__(self, path, name, lo, hi, src=None):
        self.id = path.nid(); self.name = name; self.lo = lo; self.hi = hi; self.src = src

class Lin:
    __slots__ = ('c', 't')
    def __init__(self, c, t): self.c = c; self.t = t   # t: dict var->coef
    def __repr__(self): return 'Lin(%s)' % lin_str(self)

class Bits:
    __slots__ = ('b',)
    def __init__(self, b): self.b = b      # tuple, lsb first: 0/1/Sym(bool)

class Clo:
    __slots__ = ('k', 'f')
    def __init__(self, k, f): self.k = k; self.f = f

class FnV:
    __slots__ = ('d',)
    def __init__(self, d): self.d = d

class Fmt:
    __slots__ = ('out', 'alt', 'failed', 'after', 'sink')
    def __init__(self, sink=False): self.out = []; self.alt = None; self.failed = False; self.after = 0; self.sink = sink

class FArgs:
    __slots__ = ('pieces',)
    def __init__(self, pieces): self.pieces = pieces

class FArg:
    __slots__ = ('v', 'k')
    def __init__(self, v, k): self.v = v; self.k = k

class It:
    __slots__ = ('k', 'd')
    def __init__(self, k, *d): self.k = k; self.d = d

class Opq:
    """opaque value"""
    __slots__ = ('id', 'what')
    def __init__(self, path, what): self.id = path.nid(); self.what = what

UNIT = Tup(())
OPTION = 'std::option::Option'
RESULT = 'std::result::Result'
CFLOW = 'std::ops::ControlFlow'
NONE = Adt(OPTION, 0, ())
def some(x): return Adt(OPTION, 1, (x,))
def ok(x): return Adt(RESULT, 0, (x,))
def err(x): return Adt(RESULT, 1, (x,))
STRT = (str, SSym, Cat)

def res(v):
    while True:
        t = v.__class__
        if t is Sym or t is SSym:
            if v.val is None: return v
            v = v.val
        elif t is Cat:
            for p in v.p:
                if p.__class__ is SSym and p.val is not None or p.__class__ is Run:
                    return cat(v.p)
            return v
        elif t is Lin:
            return lin_norm(v)
        else:
            return v

# ---------------------------------------------------------------- strings
def cat(parts):
    out = []
    def add(p):
        p = p if p.__class__ is Run else res_s(p)
        t = p.__class__
        if t is Cat:
            for q in p.p: add(q)
        elif t is Run:
            for q in flat_items(p.i):
                if q.__class__ is int: add(chr(q))
                elif q.__class__ is CSym and len(q.iv) == 1 and q.iv[0][0] == q.iv[0][1]: add(chr(q.iv[0][0]))
                elif out and out[-1].__class__ is Run: out[-1] = Run(out[-1].i + (q,))
                else: out.append(Run((q,)))
        elif t is str:
            if p:
                if out and out[-1].__class__ is str: out[-1] += p
                else: out.append(p)
        else: out.append(p)
    for p in parts: add(p)
    if not out: return ''
    if len(out) == 1 and out[0].__class__ is not Run: return out[0]
    return Cat(tuple(out))

def res_s(v):
    while v.__class__ is SSym and v.val is not None: v = v.val
    return v

def flat_items(items):
    for x in items:
        if x.__class__ is Gap and x.bound is not None: break
    else: return items
    out = []
    for x in items:
        if x.__class__ is Gap and x.bound is not None: out.extend(flat_items(x.bound))
        else: out.append(x)
    return tuple(out)

def sparts(s):
    s = res(s)
    return s.p if s.__class__ is Cat else (() if s == '' else (s,)) if s.__class__ is str else (s,)

# ---------------------------------------------------------------- linear arithmetic
def lin_norm(v):
    if v.__class__ is int: return v
    c = v.c; t = {}
    todo = list(v.t.items())
    changed = False
    while todo:
        x, k = todo.pop()
        if k == 0: continue
        s = x.src
        if s is not None:
            r = None
            if s.__class__ is Gap:
                if s.bound is not None: r = items_len(s.bound)
            elif s.__class__ is SSym:
                if s.val is not None: r = str_len(s.val)
                elif s.len is not None: r = s.len
                elif s.gap is not None and s.gap.bound is not None: r = run_len(s.gap.bound)
            elif s.__class__ is MGap:
                if s.bound is not None:
                    r = Lin(len(s.bound[0]), {s.bound[1].var: 1} if s.bound[1] is not None else {})
            if r is not None:
                changed = True
                if r.__class__ is int: c += k * r
                else:
                    c += k * r.c
                    todo.extend((y, k * j) for y, j in r.t.items())
                continue
        t[x] = t.get(x, 0) + k
    t = {x: k for x, k in t.items() if k}
    if not t: return c
    return Lin(c, t)

def run_len(items):
    """byte length of materialised chars, or None when a width is undetermined"""
    n = 0; t = {}
    for x in flat_items(items):
        if x.__class__ is Gap: return None
        w = cwidth(x)
        if w is None: return None
        n += w
    return n

def cwidth(x):
    if x.__class__ is int: return len(chr(x).encode('utf8', 'surrogatepass'))
    ws = set()
    for a, b in x.iv:
        for lo, hi, w in ((0, 0x7f, 1), (0x80, 0x7ff, 2), (0x800, 0xffff, 3), (0x10000, 0x10ffff, 4)):
            if a <= hi and b >= lo: ws.add(w)
    return ws.pop() if len(ws) == 1 else None

def items_len(items):
    n = 0; t = {}
    for x in flat_items(items):
        if x.__class__ is Gap: t[x.var] = t.get(x.var, 0) + 1
        else: n += 1
    return Lin(n, t) if t else n

def str_len(s):
    s = res(s)
    if s.__class__ is str: return len(s.encode('utf8', 'surrogatepass'))
    n = 0; t = {}
    for p in sparts(s):
        if p.__class__ is str: n += len(p.encode('utf8', 'surrogatepass'))
        elif p.__class__ is Run:
            r = run_len(p.i)
            if r is None: r = Lin(0, {RUNVARS(p): 1})
            if r.__class__ is int: n += r
            else:
                n += r.c
                for x, k in r.t.items(): t[x] = t.get(x, 0) + k
        else: t[p.var] = t.get(p.var, 0) + 1
    return lin_norm(Lin(n, t))

_runvars = {}
def RUNVARS(p):
    raise EngineError('length of a partly materialised run')

def ladd(a, b, k=1):
    if a.__class__ is int and b.__class__ is int: return a + k * b
    if a.__class__ is int: a = Lin(a, {})
    if b.__class__ is int: b = Lin(b, {})
    t = dict(a.t)
    for x, c in b.t.items(): t[x] = t.get(x, 0) + k * c
    return lin_norm(Lin(a.c + k * b.c, t))

def lmul(a, k):
    if a.__class__ is int: return a * k
    return lin_norm(Lin(a.c * k, {x: c * k for x, c in a.t.items()}))

def lin_str(v):
    v = lin_norm(v) if v.__class__ is Lin else v
    if v.__class__ is int: return str(v)
    s = ' + '.join(('%s' % x.name if k == 1 else '%d*%s' % (k, x.name)) for x, k in sorted(v.t.items(), key=lambda a: a[0].id))
    return s + (' + %d' % v.c if v.c > 0 else ' - %d' % -v.c if v.c < 0 else '')

def fm_feasible(cons):
    """cons: list of (dict var->coef, const), meaning sum+const >= 0.  Rational feasibility
    (Fourier-Motzkin), with integer tightening of single-variable constraints."""
    cons = [(dict(t), c) for t, c in cons]
    while True:
        vs = {}
        for t, c in cons:
            if not t:
                if c < 0: return False
                continue
            for x, k in t.items():
                p = vs.setdefault(x, [0, 0]); p[0 if k > 0 else 1] += 1
        if not vs: return True
        x = min(vs, key=lambda y: (vs[y][0] * vs[y][1], y.id))
        pos, neg, rest = [], [], []
        for t, c in cons:
            k = t.get(x, 0)
            (pos if k > 0 else neg if k < 0 else rest).append((t, c))
        for t1, c1 in pos:
            for t2, c2 in neg:
                a, b = t1[x], -t2[x]
                t = {}
                for y, k in t1.items():
                    if y is not x: t[y] = t.get(y, 0) + k * b
                for y, k in t2.items():
                    if y is not x: t[y] = t.get(y, 0) + k * a
                t = {y: k for y, k in t.items() if k}
                rest.append((t, c1 * b + c2 * a))
        if len(rest) > 2000: return True
        seen = set(); cons = []
        for t, c in rest:
            kk = (tuple(sorted((y.id, k) for y, k in t.items())), c)
            if kk not in seen: seen.add(kk); cons.append((t, c))

# ---------------------------------------------------------------- program
def short(p):
    return p.rsplit('::', 1)[-1]

class Prog:
    def __init__(self, fn):
        d = json.load(open(fn))
        self.d = d
        self.T = d['types']
        self.B = {b['key']: b for b in d['bodies']}
        self.adts = {a['p']: a for a in d['adts']}
        self.impls = {}
        self.implkeys = {}
        for im in d['impls']:
            if im['tr'] is None: continue
            for n, k in im['m']:
                self.impls.setdefault((short(im['tr']), n), []).append((im, k))
        self.traits = {t['p']: t for t in d['traits']}
        self.trait_by_method = {}
        for t in d['traits']:
            for m in t['m']:
                self.trait_by_method.setdefault(m[0], []).append((t['p'], m[1]))

    def ty(self, i): return self.T[i]

    def find(self, trait, method, selfsub='RcRefCell<'):
        """resolved key of the method `method` of local trait `trait` for the node type"""
        for im, k in self.impls.get((trait, method), []):
            if selfsub in self.T[im['st']]['s']:
                return k
        for t, k in self.trait_by_method.get(method, []):
            if short(t) == trait and k in self.B:
                return k
        raise EngineError('anchor missing: %s::%s' % (trait, method))

    def fn(self, suffix):
        c = [k for k in self.B if k == suffix or k.endswith('::' + suffix)]
        if len(c) != 1: raise EngineError('anchor missing or ambiguous: %s (%d)' % (suffix, len(c)))
        return c[0]

"""Scenario suites: every public operation is analysed from a partition of abstract pre-states, and its
abstract results and post-states are compared with the specification written in the clauses below.
Each clause is tagged with the properties it decides."""
import sys, os, time, json, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(30000)
from dom import *
import stdm, cg

SCENARIOS = []          # (id, props, fn, cfg overrides, thorough overrides, cases)

class Scenario:
    def __init__(self, id, props, fn, cfg, thorough, cases):
        self.id, self.props, self.fn, self.cfg, self.thorough, self.cases = id, props, fn, cfg, thorough, cases

def sc(id, props, cases=(None,), thorough=None, **cfg):
    def deco(f):
        ps = props.split()
        if 'C31' in ps and 'C07' not in ps: ps.append('C07')
        th = dict(thorough or {})
        if f.__module__ in ('s_nav', 's_ns', 's_text', 's_char', 's_create'):       # cheap: larger lists and maps
            cfg.setdefault('K', 3); cfg.setdefault('KM', 3)
            th.setdefault('K', cfg['K'] + 1); th.setdefault('KM', cfg['KM'] + 1)
        SCENARIOS.append(Scenario(id, tuple(ps), f, cfg, th, list(cases)))
        return f
    return deco

class Anchor(WholeCase):
    """a public anchor of the analysed crate is missing: fail closed"""

class Moved(Exception):
    """a private anchor is gone: what it decided is undecided now (the public operations still are decided)"""

OPAQUE_ATTRIBUTE_VALUE = 'attrvalue'

def parse_name(M):
    """summary of the parser of qualified names (its own specification is decided by property C13)"""
    def err(P, code): return Adt(RESULT, 1, (Adt(M.ERR, M.err[code], ()),))
    def name(p, l):
        v = [NONE] * M.nnf
        v[M.namef['local_name']] = l
        v[M.namef['prefix']] = NONE if p is None else some(p)
        return Adt(RESULT, 0, (Adt(M.NAME, 0, tuple(v)),))
    def part(P, x):
        """'part' or the error code of one part"""
        x = res(x)
        if x.__class__ is str: return name_outcome(x)
        if x.__class__ is not SSym or x.gap is not None: return None
        if x.nm is None:
            if P.s_is_empty(x): return 'Syntax'
            x = res(x)
            if x.__class__ is str: return name_outcome(x)
            x.nm = 'part' if P.choose(2, '%s is an XML name' % x.name) == 0 else 'InvalidCharacter'
        return x.nm
    def h(P, key, args):
        s = res(P.un(args[0]))
        def uninterpreted():
            P.cfg_opaque[key] = None
            try: return P.opaque_call(key, [s])
            finally: P.cfg_opaque[key] = h
        if s.__class__ is str:
            k = name_outcome(s)
            if k == 'part': return name(None, s)
            if k == 'pair': return name(*s.split(':'))
            return err(P, k)
        if s.__class__ is SSym and s.gap is None and s.term is None and ':' not in s.no:
            if s.nm is None:
                k = P.choose(4, '%s as a name' % s.name)
                if k == 0: s.nm = 'part'; s.no = s.no | {':'}
                elif k == 1:
                    a, b = SSym(P, s.name + '.prefix'), SSym(P, s.name + '.local')
                    for x in (a, b): x.nonempty = True; x.no = frozenset(':'); x.nm = 'part'
                    P.bind_s(s, cat((a, ':', b)))
                    return name(a, b)
                else: s.nm = 'Syntax' if k == 2 else 'InvalidCharacter'
                if s.nm != 'Syntax': s.nonempty = True
            return name(None, s) if s.nm == 'part' else err(P, s.nm)
        ps = [[]]
        for p in sparts(s):
            if p.__class__ is str:
                l = p.split(':')
                if l[0]: ps[-1].append(l[0])
                for x in l[1:]: ps.append([x] if x else [])
            elif p.__class__ is SSym and ':' in p.no: ps[-1].append(p)
            else: return uninterpreted()
        if any(len(p) > 1 for p in ps): return uninterpreted()
        ps = [p[0] if p else '' for p in ps]
        if len(ps) > 2: return err(P, 'Syntax')
        for p in reversed(ps):
            k = part(P, p)
            if k is None: return uninterpreted()
            if k != 'part': return err(P, k)
        return name(None, ps[0]) if len(ps) == 1 else name(*ps)
    return h

def default_opaque(prog, M, attrvalue=True, keep=()):
    d = {}
    for k in prog.B:
        if '{' in k: continue
        if k.endswith(('text::normalize_attribute_value', 'text::normalize_end_of_lines', 'text::escape')) or k.endswith('name::Name as std::str::FromStr>::from_str'):
            if not any(k.endswith(x) for x in keep): d[k] = parse_name(M) if 'from_str' in k else None
    if attrvalue and 'attrvalue' not in keep:
        k = prog.find('Attribute', 'value')
        def h(P, key, args):
            o = P.dom.obj(args[0])
            if o.node is not None and o.node.get('pre') and P.same(P.dom.field(o, 'i_child_nodes'), P.dom.init_field(o, 'i_child_nodes')):
                m = o.node.get('attrvalue')
                if m is None: m = o.node['attrvalue'] = P.dom.opt_str(o.name + '.value()')
                return m
            del P.cfg_opaque[key]
            try: return P.call(key, args)
            finally: P.cfg_opaque[key] = h
        d[k] = h
    return d

class Unroll(WholeCase):
    """the recursion has another form than the summaries describe: analyse the case without them, down to a bounded depth"""

UNROLLED = dict(K=2, KM=1, DEPTH=3, depth_cut=True, NODES=4)

def inductive(trait, meth, mk, sub='RcRefCell<'):
    """summarise recursive calls of a method on other nodes than the one analysed (induction on the height of the
    tree): the first call on the node of the scenario is interpreted, calls on other nodes are mk(P, node, args)"""
    def opq(env, unrolled=False):
        try: key = env.prog.find(trait, meth, sub)
        except EngineError: return {}
        if unrolled: return {}
        away = env.cg.recursion_elsewhere(key)
        def h(P, key, args):
            if away: raise Unroll('the recursion of %s has moved to %s' % (meth, away[0]))
            o = P.dom.obj(args[0])
            if o is P.x.top and not P.x.entered:
                P.x.entered = True
                return P.call_body(key, args)
            k = ('ind', key, o.id) + tuple(P.key(a) for a in args[1:])
            if k not in P.memo: P.memo[k] = mk(P, o, args)
            P.x.summaries.append((o, key, args, P.memo[k]))
            return P.memo[k]
        return {key: h}
    return opq

def merged(*fs):
    def opq(env, unrolled=False):
        d = {}
        for f in fs: d.update(f(env, unrolled))
        return d
    return opq

class X:
    """context of one element of the partition of one scenario"""
    def __init__(self, P, env, scn, case):
        self.P, self.prog, self.M, self.scn, self.case = P, env.prog, env.M, scn, case
        self.env = env
        self.d = Dom(P, env.M)
        self.labels = []
        self.viol = []
        self.clauses = 0
        self.ops = []
        self.tags = set()
        self.top = None; self.entered = False; self.summaries = []
        P.x = self

    # -- partition of the pre-state
    def pick(self, label, opts):
        opts = list(opts)
        i = self.P.choose(len(opts), label)
        self.labels.append('%s=%s' % (label, opts[i]))
        return opts[i]

    # -- building blocks
    def node(self, name, types=ANYT, **kw):
        if isinstance(types, str): types = {types}
        return self.d.node(name, frozenset(types), **kw)
    def doc(self, name='doc', **kw):
        return self.d.node(name, frozenset({'Document'}), parent=None, owner=None, **kw)
    def h(self, o): return handle(self.M, o)
    def r(self, o): return Ref(Cell(handle(self.M, o)))
    def ref(self, v): return Ref(Cell(v))
    def s(self, name): return SSym(self.P, name)
    def rs(self, name): return Ref(Cell(SSym(self.P, name)))
    def tyi(self, s):
        for i, t in enumerate(self.prog.T):
            if t['s'] == s: return i
        raise Anchor('type %s' % s)
    def summary(self, trait, meth, o, *rest, **kw):
        """the summary of a call on node o, if the operation made one"""
        key = self.prog.find(trait, meth, kw.get('sub', 'RcRefCell<'))
        ks = [self.P.key(self.P.un(a)) for a in rest]
        for n, k, args, v in self.summaries:
            if n is o and k == key and [self.P.key(self.P.un(a)) for a in args[1:]] == ks: return v
        return None
    def touched(self, o):
        """has the operation looked at the initial children of o?"""
        return any(x.__class__ is not Gap or x.bound is not None for x in res(self.d.init_field(o, 'i_child_nodes')).i)
    def usize(self, name): return self.P.fresh_t(self.tyi('usize'), name)
    def bool(self, name): return Sym(self.P, 'bool', name)

    # -- running the abstract semantics of an operation
    def op(self, key, *args):
        self.ops.append(key)
        try:
            v = self.P.call(key, list(args))
            self.kind, self.val, self.pan = 'ret', v, None
        except Panic as e:
            self.kind, self.val, self.pan = 'panic', None, e
        return self.kind
    def m(self, trait, meth, *args):
        try: k = self.prog.find(trait, meth)
        except EngineError as e: raise Anchor(str(e))
        return self.op(k, *args)
    def mi(self, trait, meth, sub, *args):
        """method of a trait implemented for a type whose name contains `sub`"""
        try: k = self.prog.find(trait, meth, sub)
        except EngineError as e: raise Anchor(str(e))
        return self.op(k, *args)
    def f(self, suffix, *args):
        try: k = self.prog.fn(suffix)
        except EngineError as e: raise Anchor(str(e))
        return self.op(k, *args)

    def fp(self, suffix, *args):
        """private function: undecided if it is gone"""
        try: k = self.prog.fn(suffix)
        except EngineError as e: raise Moved(str(e))
        return self.op(k, *args)
    def shows(self, v, sub, alt=None):
        """what value v of type `sub` writes to a formatter"""
        f = Fmt()
        if alt is not None: f.alt = alt
        self.mi('Display', 'fmt', sub, Ref(Cell(v)), Ref(Cell(f)))
        return f

    # -- results
    def result(self):
        """('ok', v) | ('err', code name) | ('panic', message) | ('val', v)"""
        if self.kind == 'panic': return 'panic', self.pan.msg
        v = res(self.val)
        if (v.p if v.__class__ is Adt else getattr(v, 'ty', None)) != RESULT: return 'val', v
        vi = self.P.variant(v); v = res(v)
        if vi == 0: return 'ok', v.f[0]
        e = self.P.un(v.f[0])
        ei = self.P.variant(e)
        return 'err', self.M.errn[ei]

    def opt(self, v):
        """None or the value of an Option"""
        v = self.P.un(v)
        vi = self.P.variant(v)
        return None if vi == 0 else res(v).f[0]

    # -- clauses
    def ok(self, props, cond, key, msg=''):
        self.clauses += 1
        if not cond:
            for p in props.split(): self.viol.append((p, key, msg() if callable(msg) else msg))
        return cond

    def no_panic(self, props, key='no-panic'):
        """the operation must not panic"""
        self.clauses += 1
        if self.kind == 'panic':
            where = self.pan.where[-1][0] if self.pan.where else '?'
            ps = props.split() + (['C07'] if self.pan.kind == 'borrow' else []) + ['C31']
            for p in dict.fromkeys(ps):
                self.viol.append((p, '%s:%s:%s' % (key, self.pan.kind, where), 'panics: %s' % self.pan.msg))
            return False
        return True

    def expect(self, props, errs, errprops=None, atomic='C05', blame=None):
        """errs: {code: properties} of every condition that applies to this pre-state.  The operation must fail
        with one of them, or succeed if there is none.  blame(code): further properties a wrong failure with that
        code breaks.  Returns True when it succeeded as it must."""
        errs = errs or {}
        allp = ' '.join([props] if not errs else errs.values())
        if not self.no_panic(allp): return False
        k, v = self.result()
        if errs:
            if self.ok(allp, k == 'err', 'must-fail(%s)' % '|'.join(sorted(errs)), lambda: 'succeeds where %s is required' % ' or '.join(sorted(errs))):
                self.ok(allp, v in errs, 'error-code(%s)' % '|'.join(sorted(errs)), lambda: 'fails with %s where %s is required' % (v, ' or '.join(sorted(errs))))
            if k == 'err' and atomic: self.unchanged(atomic, 'failed')
            return False
        if not self.ok(props + (blame(v) if blame and k == 'err' else ''), k != 'err', 'must-succeed', lambda: 'fails with %s where the operation must succeed' % v):
            if atomic: self.unchanged(atomic, 'failed')
            return False
        return True

    def unchanged(self, props, key='unchanged', allow=()):
        ch = [(o, f) for o, f in self.d.changes() if (o, f) not in allow]
        self.ok(props, not ch, '%s:%s' % (key, '+'.join(sorted({f for o, f in ch}))),
                lambda: 'changes %s' % ', '.join('%s of %s%s' % (f, o.name, self.site(o)) for o, f in ch))
        return not ch

    def changed_only(self, props, allowed, key='effects'):
        """allowed: set of (Obj, field)"""
        ch = [(o, f) for o, f in self.d.changes() if (o, f) not in allowed]
        self.ok(props, not ch, '%s:%s' % (key, '+'.join(sorted({f for o, f in ch}))),
                lambda: 'also changes %s' % ', '.join('%s of %s%s' % (f, o.name, self.site(o)) for o, f in ch))

    def site(self, o):
        w = [x for x in self.P.writes if x[0] is o]
        return ' (written in %s %s)' % (w[-1][2], w[-1][3]) if w else ''

    # -- strings
    def str_norm(self, s):
        """canonical form of a string: maximal slices of base strings and constants"""
        P = self.P
        out = []
        def add(base, a, b):
            if base.__class__ is str:
                if base == '': return
                if out and out[-1].__class__ is str: out[-1] += base
                else: out.append(base)
                return
            if P.entails_eq(a, b): return
            if out and out[-1].__class__ is list and P.key(out[-1][0]) == P.key(base) and P.entails_eq(out[-1][2], a):
                out[-1][2] = b; return
            out.append([base, a, b])
        for p in sparts(P.un(s)):
            if p.__class__ is str: add(p, 0, 0)
            elif p.__class__ is SSym:
                if p.term is not None and p.term[0] == 'sub': add(p.term[1], p.term[2], p.term[3])
                else: add(p, 0, str_len(p))
            else: add(p, 0, 1)
        return out

    def same_str(self, a, b):
        """the same string?  Undecided (imprecise) when the forms are not comparable"""
        P = self.P
        a, b = res(P.un(a)), res(P.un(b))
        if a.__class__ not in STRT or b.__class__ not in STRT: return False
        if P.key(a) == P.key(b): return True
        x, y = self.str_norm(a), self.str_norm(b)
        if len(x) == len(y) and all((p == q) if p.__class__ is str or q.__class__ is str else
               P.key(p[0]) == P.key(q[0]) and P.entails_eq(p[1], q[1]) and P.entails_eq(p[2], q[2]) for p, q in zip(x, y)): return True
        if a.__class__ is str and b.__class__ is str: return False
        if any(p.__class__ is list and p[0].__class__ is Run for p in x + y):
            return P.s_eq(a, b)
        return False

    # -- states
    def kids(self, o): return [x if x.__class__ is Gap else self.d.obj(x) for x in self.d.kids(o)]
    def init_kids(self, o): return [x if x.__class__ is Gap else self.d.obj(x) for x in self.d.init_kids(o)]
    def link(self, props, o, field, want, key):
        """the Option<weak/handle> field of o must refer to `want` (Obj or None)"""
        got = self.d.objopt(self.d.field(o, field))
        return self.ok(props, got is want, key, lambda: '%s of %s is %s, must be %s' % (field, o.name, got.name if got else None, want.name if want else None))
    def names(self, l): return '[%s]' % ', '.join('…' if x.__class__ is Gap else x.name for x in l)
    def same_kids(self, props, o, want, key):
        got = self.kids(o); want = list(flat(want))
        return self.ok(props, len(got) == len(want) and all(a is b for a, b in zip(got, want)), key,
                       lambda: 'children of %s are %s, must be %s' % (o.name, self.names(got), self.names(want)))

    def has_element(self, items, excluding=()):
        """does this list of children contain an element, apart from `excluding`? (partitioned)"""
        el = self.M.nt['Element']
        def test(x):
            o = self.d.obj(x)
            if o in excluding: return False
            return self.P.variant(o.node['T'], [{el}, set(range(len(TYPES))) - {el}]) == 0 if False else self.is_type(o, 'Element')
        return stdm.seg_search(self.P, It('items', tuple(items)), test, True)[0]

    def is_type(self, o, *types):
        """is o of one of these types? (partitioned)"""
        t = res(o.node['T'])
        want = {self.M.nt[x] for x in types}
        if t.__class__ is Adt: return t.vi in want
        a, b = t.dom & want, t.dom - want
        if not a: return False
        if not b: return True
        if self.P.choose(2, '%s is %s' % (o.name, '/'.join(types))) == 0:
            self.P.narrow(t, a); return True
        self.P.narrow(t, b); return False

    def describe(self):
        out = list(self.labels)
        for o in self.d.objs:
            ts = self.d.typeset(o)
            out.append('%s: %s' % (o.name, '|'.join(sorted(ts)) if len(ts) < 12 else 'any type'))
        return out

def flat(items):
    """expand bound gaps of a list of Obj/Gap"""
    out = []
    for x in items:
        if x.__class__ is Gap:
            for y in flat_items((x,)):
                out.append(y if y.__class__ is Gap else (y.f[0].o if y.__class__ is Adt else y))
        else: out.append(x)
    return out

class Env:
    def __init__(self, dump):
        self.prog = Prog(dump)
        self.M = Model(self.prog)
        self.cg = cg.CallGraph(self.prog)

def run_case(env, scn, ci, tier, deadline, max_paths=200000, base=(), probe=False, unrolled=None):
    """analyse one case of a scenario; returns a summary dict"""
    over = dict(scn.cfg)
    if tier == 'thorough': over.update(scn.thorough)
    keep = over.pop('keep', ()); opq = over.pop('opq', None); un = over.pop('unroll', {})
    if unrolled:
        over.update(UNROLLED); over.update(un)
        if tier == 'thorough': over['NODES'] += 1
    case = scn.cases[ci]
    cfg = Config(**over)
    cfg.opaque = default_opaque(env.prog, env.M, keep=keep)
    if opq: cfg.opaque.update(opq(env, unrolled) if unrolled else opq(env))
    r = {'scenario': scn.id, 'case': str(case), 'paths': 0, 'clauses': 0, 'undecided': [], 'viol': {}, 'ops': {}, 'anchor': None, 'functions': {}, 'samples': []}
    cur = []
    def scenario(P):
        P.cfg_opaque = cfg.opaque
        x = X(P, env, scn, case); x.unrolled = unrolled; x.tier = tier; cur.append(x)
        scn.fn(x)
        return x
    t0 = time.time(); st = {}
    try:
        for o, st in explore(env.prog, cfg, scenario, 1 if probe else max_paths, deadline, base):
            x = o.path.x
            r['paths'] += 1; r['at_bound'] = r.get('at_bound', 0) + bool(o.path.bounded)
            if probe: break
            for k in set(o.path.calls): r['functions'][k] = r['functions'].get(k, 0) + 1
            if o.kind == 'panic':
                o.path.imprecise.append(('clause evaluation panics: %s' % o.panic.msg, o.panic.where[-1][0] if o.panic.where else '?'))
            if not o.path.consistent(): continue
            if o.path.imprecise:
                w = o.path.imprecise[0]
                r['undecided'].append('%s at %s' % (w[0], w[1]))
                continue
            r['clauses'] += x.clauses
            if len(r['samples']) < 2: r['samples'].append({'pre-state': x.describe()[:12], 'outcome': o_str(x)})
            for p, k, msg in x.viol:
                key = '%s|%s|%s' % (p, scn.id, k)
                if key not in r['viol']:
                    r['viol'][key] = {'property': p, 'key': key, 'message': msg, 'operation': x.ops, 'pre_state': x.describe(),
                        'partition': ['%s [%d/%d]' % (c[2], c[1] + 1, c[0]) for c in o.path.choices],
                        'outcome': o_str(x), 'call_path': (x.pan.where if x.pan else None),
                        'writes': [(w[0].name, w[2], w[3]) for w in o.path.writes][-20:], 'count': 0}
                r['viol'][key]['count'] += 1
    except Anchor as e:
        r['anchor'] = str(e)
    except Moved as e:
        r['undecided'].append(str(e))
    except Unroll as e:
        if unrolled: r['undecided'].append(str(e))
        else: return run_case(env, scn, ci, tier, deadline, max_paths, base, probe, str(e))
    r['unrolled'] = unrolled
    r['stats'] = dict(st); r['wall'] = time.time() - t0
    if probe: return cur[0].P.choices[0][0] if cur and cur[0].P.choices else 1
    return r

def o_str(x):
    try:
        if getattr(x, 'pan', None): return 'panic: ' + x.pan.msg
        return vstr(x.P, getattr(x, 'val', None))[:300]
    except Exception as e:
        return '?%s' % e

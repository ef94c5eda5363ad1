"""Abstract pre-states: DOM nodes satisfying the representation invariant, materialised lazily."""
import re
from core import *
from interp import *

TYPES = ['Element', 'Attribute', 'Text', 'CData', 'EntityReference', 'Entity', 'ProcessingInstruction', 'Comment',
         'Document', 'DocumentType', 'DocumentFragment', 'Notation']
CONTENT = {'Element', 'Text', 'Comment', 'ProcessingInstruction', 'CData', 'EntityReference'}
ALLOWED = {'Element': CONTENT, 'EntityReference': CONTENT, 'Entity': CONTENT, 'DocumentFragment': CONTENT,
           'Attribute': {'Text', 'EntityReference'}, 'Document': {'Element', 'Comment', 'ProcessingInstruction'}}
EXTOF = {t: (t if t in ('Element', 'Attribute', 'Document', 'DocumentType', 'Entity', 'Notation') else 'None') for t in TYPES}
ANYT = frozenset(TYPES)

OSTR, OWEAK = r'Option<std::string::String>$', r'Option<.*WeakRefCell'
FIELDS = {
    'NodeImpl': [('i_node_type', r'NodeType$', 'type'), ('i_name', r'Name$', 'name'), ('i_value', OSTR, 'value'), ('i_parent_node', OWEAK, 'parent'),
                 ('i_owner_document', OWEAK, 'owner doc'), ('i_child_nodes', r'Vec<.*RcRefCell', 'child'), ('i_extension', None, 'ext')],
    'Attribute': [('i_owner_element', OWEAK, 'owner')],
    'Document': [('i_implementation', r'^&.*dyn', 'impl'), ('i_xml_declaration', r'Option<.*XmlDecl>$', 'decl'), ('i_document_type', r'Option<.*RcRefCell', 'type'),
                 ('i_id_map', r'Map<', 'id'), ('i_options', r'ProcessingOptions$', 'opt')],
    'DocumentType': [('i_entities', r'Map<', 'entit'), ('i_notations', r'Map<', 'notation'), ('i_public_id', OSTR, 'public pub'), ('i_system_id', OSTR, 'system sys'),
                     ('i_internal_subset', OSTR, 'subset internal')],
    'Element': [('i_attributes', r'Map<.*RcRefCell', 'attr'), ('i_namespaces', r'Map<std::option', 'namespace ns')],
    'Entity': [('i_public_id', OSTR, 'public pub'), ('i_system_id', OSTR, 'system sys'), ('i_notation_name', OSTR, 'notation')],
    'Notation': [('i_public_id', OSTR, 'public pub'), ('i_system_id', OSTR, 'system sys')],
    'Name': [('namespace_uri', OSTR, 'namespace ns uri'), ('prefix', OSTR, 'prefix'), ('local_name', r'String$', 'local')],
}
def resolve_fields(prog, fields, spec, ext=None):
    """index of each field of the specification: by its name, else by its type and what its name contains"""
    out = {f[0]: i for i, f in enumerate(fields)}
    free = [i for i, f in enumerate(fields) if f[0] not in {c for c, _, _ in spec}]
    for canon, ty, hints in spec:
        if canon in out: continue
        c = [i for i in free if (prog.T[fields[i][1]].get('p') == ext if ty is None else re.search(ty, prog.T[fields[i][1]]['s']))]
        h = [i for i in c if any(w in fields[i][0] for w in hints.split())]
        if h or len(c) == 1:
            i = (h or c)[0]; free.remove(i)
            del out[fields[i][0]]; out[canon] = i
    return out

class Model:
    """resolved anchors of the representation (by name, then by type)"""
    def __init__(self, prog):
        self.prog = prog
        A = prog.adts
        def adt(name):
            c = [p for p, a in A.items() if a['local'] and short(p) == name]
            if len(c) != 1: raise EngineError('anchor missing: type %s' % name)
            return c[0]
        self.RC, self.WK = adt('RcRefCell'), adt('WeakRefCell')
        try: self.NI = adt('NodeImpl')
        except EngineError:             # the node behind the handle that implements the public traits
            c = {prog.T[prog.T[x['st']]['a'][0]]['p'] for x in prog.d['impls'] if x['tr'] and short(x['tr']) == 'Node' and prog.T[x['st']].get('p') == self.RC}
            if len(c) != 1: raise
            self.NI = c.pop()
        try: self.EXT = adt('Extension')
        except EngineError:
            c = {prog.T[f[1]].get('p') for f in A[self.NI]['v'][0]['f']} & {p for p, a in A.items() if a['local'] and a['enum'] and {'Element', 'Document'} <= {v['n'] for v in a['v']} and short(p) != 'NodeType'}
            if len(c) != 1: raise
            self.EXT = c.pop()
        self.NT, self.NAME, self.ERR = adt('NodeType'), adt('Name'), adt('Error')
        self.OPTS, self.DECL = adt('ProcessingOptions'), adt('XmlDecl')
        self.nt = {v['n']: i for i, v in enumerate(A[self.NT]['v'])}
        self.ntn = [v['n'] for v in A[self.NT]['v']]
        self.ext = {v['n']: i for i, v in enumerate(A[self.EXT]['v'])}
        self.err = {v['n']: i for i, v in enumerate(A[self.ERR]['v'])}
        self.errn = [v['n'] for v in A[self.ERR]['v']]
        self.f = resolve_fields(prog, A[self.NI]['v'][0]['f'], FIELDS['NodeImpl'], self.EXT)
        self.nf = len(A[self.NI]['v'][0]['f'])
        self.xf = {v['n']: resolve_fields(prog, v['f'], FIELDS.get(v['n'], [])) for v in A[self.EXT]['v']}
        self.nnf = len(A[self.NAME]['v'][0]['f'])
        self.namef = resolve_fields(prog, A[self.NAME]['v'][0]['f'], FIELDS['Name'])
        for n in ('i_node_type', 'i_name', 'i_value', 'i_parent_node', 'i_owner_document', 'i_child_nodes', 'i_extension'):
            if n not in self.f: raise EngineError('anchor missing: NodeImpl.%s' % n)
        if set(self.ntn) != set(TYPES): raise EngineError('node type enumeration changed: %s' % self.ntn)
        prog.fresh_hooks = {self.RC: self.fresh_rc, self.WK: self.fresh_wk, self.NAME: self.fresh_name,
                            'std::collections::HashMap': self.fresh_map}

    def fresh_rc(self, P, t, name):
        return handle(self, Dom.of(P).node(name))
    def fresh_wk(self, P, t, name):
        return Adt(self.WK, 0, (WeakV(Dom.of(P).node(name)),))
    def fresh_name(self, P, t, name):
        return Dom.of(P).name(name)
    def fresh_map(self, P, t, name):
        return MapV((), MGap(P, name, lambda path, g, key: (key if key is not None else path.fresh_t(t['a'][0], name + '.key'), path.fresh_t(t['a'][1], name + '.value'))))

OPTION_NAMES = ['assume_ids', 'parse_entities', 'add_namespaces']
def option_bits(prog, M):
    """the bit of the representation that each query tests, or None"""
    if not hasattr(prog, 'optbits'):
        prog.optbits = None
        f = prog.adts[M.OPTS]['v'][0]['f']
        if len(f) == 1 and prog.T[f[0][1]]['k'] == 'uint':
            bits = []
            for n in OPTION_NAMES:
                P = Path(prog, Config()); k = prog.fn('ProcessingOptions::has_' + n)
                bits.append([i for i in range(8) if P.truth(P.call(k, [Ref(Cell(Adt(M.OPTS, 0, (1 << i,))))]))])
            if all(len(b) == 1 for b in bits) and len({b[0] for b in bits}) == len(bits): prog.optbits = [b[0] for b in bits]
    return prog.optbits

def options_value(P, M, flags):
    b = option_bits(P.prog, M)
    if b is not None:
        v = [0] * 8
        for i, x in zip(b, flags): v[i] = x if x.__class__ is Sym else int(x)
        return Adt(M.OPTS, 0, (P.bits_norm(tuple(v)),))
    r = Ref(Cell(P.call(P.prog.fn('ProcessingOptions::new'), [])))
    for n, x in zip(OPTION_NAMES, flags):
        if P.truth(x): P.call(P.prog.fn('ProcessingOptions::set_' + n), [r])
    return P.rd(r)

def handle(M, obj): return Adt(M.RC, 0, (RcV(obj),))

class Dom:
    """per path"""
    @staticmethod
    def of(P):
        if not hasattr(P, 'dom'): raise EngineError('no dom on path')
        return P.dom

    def __init__(self, P, M, depth=None, up=None):
        self.P = P; self.M = M; P.dom = self
        self.DEPTH = P.cfg.DEPTH if depth is None else depth
        self.UP = P.cfg.UP if up is None else up
        self.objs = []
        self.doc = None
        P.nodes = self.objs

    # -- building blocks
    def opt_str(self, name):
        P = self.P
        return Sym(P, OPTION, name, frozenset({0, 1}), mk=lambda path, vi, i: SSym(path, name))

    def name(self, nm, ns=None, prefix=None, local=None):
        P = self.P
        v = [None] * self.M.nnf
        v[self.M.namef['namespace_uri']] = ns if ns is not None else self.opt_str(nm + '.ns')
        def part(n):
            x = SSym(P, n); x.nonempty = True; x.no = frozenset(':'); x.nm = 'part'; return x
        v[self.M.namef['prefix']] = prefix if prefix is not None else Sym(P, OPTION, nm + '.prefix', frozenset({0, 1}), mk=lambda path, vi, i: part(nm + '.prefix'))
        if local is None: local = part(nm + '.local')
        v[self.M.namef['local_name']] = local
        return Adt(self.M.NAME, 0, tuple(v))

    def weak(self, o): return Adt(self.M.WK, 0, (WeakV(o),))

    def the_doc(self):
        if self.doc is None: self.doc = self.node('doc', {'Document'}, depth=0, parent=None, owner=None)
        return self.doc

    # -- nodes
    def node(self, name, types=ANYT, depth=None, up=None, parent='lazy', owner='lazy', children='lazy', nm=None, value='lazy', ext=None):
        """create a pre-state node; unspecified parts are materialised on demand.
        parent: None | Obj | 'lazy';  owner: None | Obj | 'lazy' (the document of the scenario)"""
        P, M = self.P, self.M
        depth = self.DEPTH if depth is None else depth
        up = self.UP if up is None else up
        o = Obj(P, None, name)
        T = Sym(P, M.NT, name + '.type', frozenset(M.nt[t] for t in types))
        X = Sym(P, M.EXT, name + '.ext', frozenset(M.ext[EXTOF[t]] for t in types))
        def thook(path, s):
            if s.val is not None: dom = {M.ext[EXTOF[M.ntn[s.val.vi]]]}
            else: dom = {M.ext[EXTOF[M.ntn[v]]] for v in s.dom}
            x = res(X)
            if x.__class__ is Adt:
                if x.vi not in dom: raise Prune()
            elif not (x.dom <= dom): path.narrow(X, dom)
        def xhook(path, s):
            xs = {s.val.vi} if s.val is not None else s.dom
            t = res(T)
            td = {t.vi} if t.__class__ is Adt else t.dom
            nd = {v for v in td if M.ext[EXTOF[M.ntn[v]]] in xs}
            if not nd: raise Prune()
            if t.__class__ is not Adt and nd != td: path.narrow(T, nd)
        T.hook = thook; X.hook = xhook
        o.node = {'T': T, 'X': X, 'types': frozenset(types), 'depth': depth, 'up': up, 'name': name, 'pre': True}
        def xmk(path, vi, i):
            vn = [k for k, v in M.ext.items() if v == vi][0]
            fn = [k for k, v in M.xf[vn].items() if v == i][0]
            if ext and fn in ext: return ext[fn]
            return self.extf(o, vn, fn)
        X.mk = xmk
        fields = [None] * M.nf
        f = M.f
        fields[f['i_node_type']] = T
        fields[f['i_extension']] = X
        fields[f['i_name']] = nm or self.name(name)
        fields[f['i_value']] = self.opt_str(name + '.value') if value == 'lazy' else value
        # owner document
        if owner == 'lazy':
            OS = Sym(P, OPTION, name + '.owner', frozenset({0, 1}), mk=lambda path, vi, i: self.weak(self.the_doc()))
            def oset(path, s):
                # a Document has no owner document; a type created without one has none; the others have one
                ts = self.typeset(o)
                if ts <= {'Document'}: path.narrow(OS, {0})
                elif not (ts & {'Document', 'DocumentType'}): path.narrow(OS, {1})
            def ohook(path, s):
                vi = s.val.vi if s.val is not None else None
                if vi is None: return
                t = res(T)
                td = {t.vi} if t.__class__ is Adt else t.dom
                if vi == 0: nd = {v for v in td if M.ntn[v] in ('Document', 'DocumentType')}
                else: nd = {v for v in td if M.ntn[v] != 'Document'}
                if not nd: raise Prune()
                if t.__class__ is not Adt and nd != td: path.narrow(T, nd)
            OS.hook = ohook
            t0 = T.hook
            def thook2(path, s):
                t0(path, s)
                if res(OS).__class__ is Sym: oset(path, s)
            T.hook = thook2
            fields[f['i_owner_document']] = OS
        else:
            fields[f['i_owner_document']] = NONE if owner is None else some(self.weak(owner))
        # parent
        if parent == 'lazy':
            def pmk(path, vi, i):
                if up <= 0:
                    path.bounded = True; raise Cut()
                ts = self.typeset(o)
                pt = {a for a in ALLOWED if ALLOWED[a] & ts}
                po = self.node(name + '.parent', pt, depth=0, up=up - 1, children=None)
                self.link(po, [('gap',), o, ('gap',)])
                o.node['parent'] = po
                return self.weak(po)
            PS = Sym(P, OPTION, name + '.parent', frozenset({0, 1}), mk=pmk)
            def phook(path, s):
                if s.val is not None and s.val.vi == 1:
                    ts = self.typeset(o)
                    po = o.node.get('parent')
                    t = res(T)
                    if t.__class__ is not Adt:
                        nd = {v for v in t.dom if M.ntn[v] in CONTENT}
                        if not nd: raise Prune()
                        if nd != t.dom: path.narrow(T, nd)
                    elif M.ntn[t.vi] not in CONTENT: raise Prune()
            PS.hook = phook
            tp = T.hook
            def thook3(path, s):
                tp(path, s)
                ps = res(PS)
                if ps.__class__ is Sym and not (self.typeset(o) & CONTENT): path.narrow(PS, {0})
                elif ps.__class__ is Adt and ps.vi == 1:
                    po = o.node.get('parent')
                    if po: self.narrow_types(po, {a for a in ALLOWED if ALLOWED[a] & self.typeset(o)})
            T.hook = thook3
            fields[f['i_parent_node']] = PS
        else:
            fields[f['i_parent_node']] = NONE if parent is None else some(self.weak(parent))
        # children
        if children == 'lazy': ch = Seq((self.childgap(o),))
        elif children is None: ch = Seq(())
        else: ch = Seq(tuple(handle(M, c) if c.__class__ is Obj else self.childgap(o) for c in children))
        fields[f['i_child_nodes']] = ch
        impl = Adt(M.NI, 0, tuple(fields))
        rc = RCell(P, impl)
        rc.c.tag = o
        o.c.v = rc
        o.node['init'] = impl
        self.objs.append(o)
        if len(T.dom) == 1:
            P.settle(T); T.hook(P, T)
        return o

    def link(self, po, layout):
        """set the initial children of po; layout items: Obj or ('gap',)"""
        M = self.M
        rc = po.c.v
        items = tuple(handle(M, c) if c.__class__ is Obj else self.childgap(po) for c in layout)
        a = list(rc.c.v.f); a[M.f['i_child_nodes']] = Seq(items)
        rc.c.v = Adt(M.NI, 0, tuple(a)); po.node['init'] = rc.c.v

    def childgap(self, o):
        P, M = self.P, self.M
        def make(path, g, what):
            d = o.node['depth']
            if d <= 0 and P.cfg.depth_cut or P.cfg.NODES and len(self.objs) >= P.cfg.NODES:
                path.bounded = True; raise Cut()
            ts = self.typeset(o)
            al = set()
            for t in ts: al |= ALLOWED.get(t, set())
            if not al: raise Prune()
            c = self.node('%s.c%d' % (o.name, len([1 for x in self.objs])), al, depth=max(0, d - 1), up=0, parent=o,
                          owner=(o if ts == {'Document'} else 'lazy'))
            c.node['parent'] = o
            # coupling of the child's type with the parent's
            return handle(M, c)
        g = Gap(P, '%s.children' % o.name, make)
        return g

    def typeset(self, o):
        t = res(o.node['T'])
        return {self.M.ntn[t.vi]} if t.__class__ is Adt else {self.M.ntn[v] for v in t.dom}

    def narrow_types(self, o, ts):
        self.P.narrow(o.node['T'], {self.M.nt[t] for t in ts})

    def set_type(self, o, t): self.narrow_types(o, {t})

    def type(self, o):
        """type of node o (partitioned when undetermined)"""
        self.P.variant(o.node['T'])
        return self.M.ntn[res(o.node['T']).vi]

    # -- extension fields
    def extf(self, o, vn, fn):
        P, M = self.P, self.M
        nm = '%s.%s' % (o.name, fn)
        if fn == 'i_owner_element':
            def mk(path, vi, i):
                e = self.node(o.name + '.element', {'Element'}, depth=0, up=1, owner='lazy', ext={'i_attributes': MapV(((self.field(o, 'i_name'), handle(M, o)),), self.attrgap_for(lambda: o.node['element']))})
                o.node['element'] = e
                return self.weak(e)
            return Sym(P, OPTION, nm, frozenset({0, 1}), mk=mk)
        if fn == 'i_attributes': return MapV((), self.attrgap(o))
        if fn == 'i_namespaces':
            def make(path, g, key):
                k = key if key is not None else self.opt_str(nm + '.key')
                return (k, SSym(path, '%s[%s]' % (nm, vstr(path, k))))
            return MapV((), MGap(P, nm, make))
        if fn in ('i_entities', 'i_notations'):
            t = 'Entity' if fn == 'i_entities' else 'Notation'
            def make(path, g, key):
                k = key if key is not None else self.name('%s.key%d' % (nm, path.nid()))
                c = self.node('%s[%s]' % (nm, vstr(path, k)), {t}, depth=0, up=0, parent=None, nm=k)
                return (k, handle(M, c))
            return MapV((), MGap(P, nm, make))
        if fn == 'i_id_map':
            def make(path, g, key):
                # another element, one of the scenario, or an element that was dropped since
                k = key if key is not None else SSym(path, nm + '.key')
                cand = o.node.get('idcand', ())
                if cand is None: return (k, self.weak(self.node('%s[%s]' % (nm, vstr(path, k)), {'Element'}, depth=0, up=0, owner=o)))
                i = path.choose(2 + len(cand), '%s[%s]: another element%s / dropped' % (nm, vstr(path, k), ''.join(' / ' + c.name for c in cand)))
                if 0 < i <= len(cand): return (k, self.weak(cand[i - 1]))
                c = self.node('%s[%s]' % (nm, vstr(path, k)), {'Element'}, depth=0, up=0, owner=o)
                if i: c.dead = True
                return (k, self.weak(c))
            return MapV((), MGap(P, nm, make))
        if fn == 'i_document_type':
            def mk(path, vi, i):
                c = self.node(o.name + '.doctype', {'DocumentType'}, depth=0, up=0, parent=None)
                return handle(M, c)
            return Sym(P, OPTION, nm, frozenset({0, 1}), mk=mk)
        if fn == 'i_options': return options_value(P, M, self.flags(o))
        if fn == 'i_implementation':
            return Ref(Cell(Adt(self.impl_adt(), 0, ())))
        return None

    def impl_adt(self):
        c = [p for p, a in self.P.prog.adts.items() if a['local'] and short(p) == 'Implementation']
        if len(c) != 1: raise EngineError('anchor missing: type Implementation')
        return c[0]

    def flags(self, o):
        fl = o.node.get('flags')
        if fl is None: fl = o.node['flags'] = [Sym(self.P, 'bool', '%s.%s' % (o.name, n)) for n in OPTION_NAMES]
        return fl

    def attrgap(self, o): return self.attrgap_for(lambda: o)
    def attrgap_for(self, oget):
        P, M = self.P, self.M
        def make(path, g, key):
            o = oget()
            nm = '%s.attr%d' % (o.name, path.nid())
            k = key if key is not None else self.name(nm)
            c = self.node(nm, {'Attribute'}, depth=max(0, o.node['depth'] - 1), up=0, parent=None, nm=k, ext={'i_owner_element': some(self.weak(o))})
            c.node['element'] = o
            return (k, handle(M, c))
        return MGap(P, 'attributes', make)

    # -- reading
    def impl(self, o): return res(res(o.c.v).c.v)
    def field(self, o, fn): return self.impl(o).f[self.M.f[fn]]
    def init_field(self, o, fn): return o.node['init'].f[self.M.f[fn]]
    def obj(self, h):
        """Obj of a handle / reference to a handle"""
        if h.__class__ is Obj: return h
        v = self.P.un(h)
        while v.__class__ is Adt and v.f: v = res(v.f[0])
        if v.__class__ not in (RcV, WeakV): raise EngineError('handle expected: %s' % v.__class__.__name__)
        return v.o
    def objopt(self, v, name=None):
        """Obj or None of an Option<handle/weak> value"""
        v = res(v)
        vi = self.P.variant(v)
        return None if vi == 0 else self.obj(res(v).f[0])
    def kids(self, o):
        return flat_items(res(self.field(o, 'i_child_nodes')).i)
    def init_kids(self, o):
        return flat_items(res(self.init_field(o, 'i_child_nodes')).i)
    def kid_keys(self, items):
        return [self.obj(x).name if x.__class__ is not Gap else '…%d' % x.id for x in flat_items(items)]
    def xfield(self, o, vn, fn, init=False):
        x = res((self.init_field if init else self.field)(o, 'i_extension'))
        if x.__class__ is Sym:
            self.P.narrow(x, {self.M.ext[vn]}); x = res(x)
        if x.vi != self.M.ext[vn]: return None
        return x.f[self.M.xf[vn][fn]]

    # -- differences with respect to the pre-state
    def alive(self, m):
        """an identifier map without the entries of dropped elements, which nothing can see"""
        m = self.P.map_flat(m)
        return MapV(tuple((k, w) for k, w in m.e if not self.obj(w).dead), m.g)

    def changes(self):
        """[(object, field)] of pre-state nodes whose content differs from the initial one"""
        out = []
        for o in self.objs:
            a = o.node['init']; b = self.impl(o)
            if a is b: continue
            for n, i in sorted(self.M.f.items(), key=lambda x: x[1]):
                x, y = a.f[i], b.f[i]
                if x is y or self.P.key(x) == self.P.key(y): continue
                if n == 'i_extension':
                    x = res(x); y = res(y)
                    if x.__class__ is Adt and y.__class__ is Adt and x.vi == y.vi:
                        vn = [k for k, v in self.M.ext.items() if v == x.vi][0]
                        for fn, j in self.M.xf[vn].items():
                            if self.P.key(x.f[j]) != self.P.key(y.f[j]):
                                if fn == 'i_id_map' and self.P.key(self.alive(x.f[j])) == self.P.key(self.alive(y.f[j])): continue
                                out.append((o, fn))
                        continue
                out.append((o, n))
        return out

def Tn(v): return v

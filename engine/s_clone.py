"""cloning, normalisation, attribute values, tag-name searches"""
from suite import *
import itertools
from s_attr import xmap, newobj, fld
from s_create import optstr

# ---------------------------------------------------------------- cloning
def fresh(X, v):
    """Obj of a new node"""
    return X.d.obj(v)

def mkclone(P, o, args):
    """a copy of node o, as the induction hypothesis describes it"""
    d = P.dom; M = d.M
    t = d.type(o)
    n = len(d.objs)
    c = d.node(o.name + "'", {t}, parent=None, nm=d.field(o, 'i_name'), value=d.field(o, 'i_value'),
               owner=None if t == 'Document' else 'lazy', ext={'i_owner_element': NONE} if t == 'Attribute' else None)
    impl = d.impl(c); f = list(impl.f); f[M.f['i_owner_document']] = d.field(o, 'i_owner_document'); c.c.v.c.v = Adt(M.NI, 0, tuple(f))
    c.node['pre'] = False; c.node['clone_of'] = (o, args[1] if len(args) > 1 else None)
    del d.objs[n:]
    return some(handle(M, c))

CLONE = inductive('Node', 'clone_node', mkclone)
TD = [(t, d) for t in TYPES for d in (False, True)]

def linked(X, c, parent, field, what, deref=None):
    got = X.d.objopt(deref(c) if deref else fld(X, c, field))
    X.ok('C27', got is parent, what, lambda: '%s of the copy of %s is %s, must be the new node' % (field, c.name, got.name if got else None))

@sc('clone_node', 'C27 C06 C31', cases=['%s/%s' % (t, 'deep' if d else 'shallow') for t, d in TD], K=2, KM=2, thorough=dict(K=3, KM=3), opq=CLONE)
def _(X):
    t, d = X.case.split('/'); deep = d == 'deep'
    o = X.node('self', {t})
    X.top = o
    X.m('Node', 'clone_node', X.r(o), deep)
    if not X.no_panic('C27'): return
    X.unchanged('C06 C27', 'original')
    v = X.opt(X.val)
    if not X.ok('C27', v is not None, 'cloned', 'the clone is missing'): return
    c = X.d.obj(v)
    if not X.ok('C27', c not in X.d.objs, 'new-node', lambda: 'the clone is the existing node %s' % c.name): return
    X.ok('C27', X.P.variant(fld(X, c, 'i_node_type')) == X.M.nt[t], 'type', 'the clone has another type')
    X.ok('C27', X.P.same(fld(X, c, 'i_name'), X.d.init_field(o, 'i_name')) or X.P.veq(fld(X, c, 'i_name'), X.d.init_field(o, 'i_name')), 'name', 'the clone has another name')
    w = X.opt(X.d.init_field(o, 'i_value'))
    optstr(X, 'C27', fld(X, c, 'i_value'), w, 'value', 'the value of the clone')
    X.ok('C27', X.d.objopt(fld(X, c, 'i_parent_node')) is None, 'no-parent', 'the clone has a parent')
    X.ok('C27', X.d.objopt(fld(X, c, 'i_owner_document')) is X.d.objopt(X.d.init_field(o, 'i_owner_document')), 'owner-document', 'the owner document of the clone')
    # children
    kids = [X.d.obj(x) for x in X.P.force(res(fld(X, c, 'i_child_nodes')).i)]
    if not deep: X.ok('C27', not kids, 'shallow', 'a shallow clone has children')
    else:
        old = [X.d.obj(x) for x in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i)]
        if X.ok('C27', len(old) == len(kids), 'children', lambda: '%d children cloned to %d' % (len(old), len(kids))):
            for a, b in zip(old, kids):
                X.ok('C27', copied(X, a, b), 'child', lambda: 'the child %s of the clone is not the deep copy of %s' % (b.name, a.name))
                if b in X.d.objs: continue
                linked(X, b, c, 'i_parent_node', 'child-parent')
    # extension
    if t == 'Attribute':
        X.ok('C27', X.d.objopt(newext(X, c, 'Attribute', 'i_owner_element')) is None, 'no-owner-element', 'the clone of an attribute has an owner element')
    elif t == 'Element':
        m = X.P.map_flat(newext(X, c, 'Element', 'i_attributes')); old = X.P.map_flat(xmap(X, o, 'Element', 'i_attributes', init=True))
        want = [(k, X.d.obj(v)) for k, v in force_map(X, old)]
        got = [(k, X.d.obj(v)) for k, v in force_map(X, m)]
        if any(X.P.veq(p[0], q[0]) for p, q in itertools.combinations(want, 2)): raise Prune()      # keys of a map differ
        if X.ok('C27', len(want) == len(got), 'attributes', lambda: '%d attributes cloned to %d' % (len(want), len(got))):
            for k, a in want:
                b = [n for q, n in got if X.P.same(k, q)]
                if not X.ok('C27', len(b) == 1 and copied(X, a, b[0]), 'attribute', lambda: 'the clone lacks a deep copy of the attribute %s' % vstr(X.P, k)): continue
                linked(X, b[0], c, 'i_owner_element', 'attribute-owner', lambda n: newext(X, n, 'Attribute', 'i_owner_element'))
        same_ext(X, o, c, t, ['i_namespaces'])
    elif t in ('Entity', 'Notation'): same_ext(X, o, c, t, ['i_public_id', 'i_system_id'] + (['i_notation_name'] if t == 'Entity' else []))
    elif t == 'DocumentType': same_ext(X, o, c, t, ['i_public_id', 'i_system_id', 'i_internal_subset'])

def copied(X, a, b):
    """is node b the deep copy of node a?"""
    if b in X.d.objs: return False
    s = X.summary('Node', 'clone_node', a, True)
    if s is not None and X.d.obj(X.opt(s)) is b: return True
    if any(o is a or X.d.obj(X.opt(v)) is b for o, _k, _a, v in X.summaries): return False
    return same_tree(X, a, b)

def same_tree(X, a, b):
    """the copy was made by other means than a recursive call: compare the trees, as far as they were looked at"""
    P = X.P
    if P.variant(fld(X, b, 'i_node_type')) != P.variant(fld(X, a, 'i_node_type')) or not P.same(fld(X, a, 'i_name'), fld(X, b, 'i_name')): return False
    if not (P.same(fld(X, a, 'i_value'), fld(X, b, 'i_value')) or P.veq(fld(X, a, 'i_value'), fld(X, b, 'i_value'))): return False
    t = X.d.type(a)
    bk = [X.d.obj(x) for x in P.force(res(fld(X, b, 'i_child_nodes')).i)]
    if not X.touched(a):
        if not ALLOWED.get(t): return not bk
        P.imp('%s is copied by other means than clone_node' % a.name)
        return True
    ak = [X.d.obj(x) for x in P.force(res(X.d.init_field(a, 'i_child_nodes')).i)]
    if len(ak) != len(bk): return False
    for x, y in zip(ak, bk):
        if y in X.d.objs or not copied(X, x, y): return False
        linked(X, y, b, 'i_parent_node', 'child-parent')
    if t == 'Element':
        old = force_map(X, xmap(X, a, 'Element', 'i_attributes', init=True)); new = force_map(X, newext(X, b, 'Element', 'i_attributes'))
        if any(P.veq(p[0], q[0]) for p, q in itertools.combinations(old, 2)): raise Prune()
        if len(old) != len(new): return False
        for k, v in old:
            n = [X.d.obj(w) for q, w in new if P.same(k, q)]
            if len(n) != 1 or n[0] in X.d.objs or not copied(X, X.d.obj(v), n[0]): return False
            linked(X, n[0], b, 'i_owner_element', 'attribute-owner', lambda n: newext(X, n, 'Attribute', 'i_owner_element'))
    return True
def same_ext(X, o, c, t, fs):
    for f in fs:
        if f not in X.M.xf[t]: raise Anchor('%s of %s' % (f, t))
        a = X.d.xfield(o, t, f, init=True); b = newext(X, c, t, f)
        if f == 'i_namespaces':
            a, b = X.P.map_flat(a), X.P.map_flat(b)
            X.ok('C27', X.P.key(a) == X.P.key(b), f, 'the namespace declarations of the clone differ')
        else: X.ok('C27', X.P.same(a, b) or X.P.veq(a, b), f, lambda: 'the clone has another %s' % f)

def newext(X, c, vn, fn):
    x = res(fld(X, c, 'i_extension'))
    if x.__class__ is Sym:
        X.P.narrow(x, {X.M.ext[vn]}); x = res(x)
    return x.f[X.M.xf[vn][fn]]

def force_map(X, m):
    """entries of a map, materialised up to the bound"""
    while True:
        m = X.P.map_flat(m)
        if m.g is None: return list(m.e)
        X.P.mg_take(m.g)

# ---------------------------------------------------------------- normalisation
def mknorm(P, o, args): return UNIT
def esc_len(env, unrolled=False):
    """escaping keeps an uninterpreted value whose length bounds follow from the escape set (C14): empty iff its argument is"""
    try: key = env.prog.fn('text::escape')
    except EngineError: return {}
    def h(P, key, args):
        s = stdm.S(P, args[0])
        if s.__class__ is str and not set(s) & set('&\'<>"'): return s
        P.cfg_opaque[key] = None
        try: t = P.opaque_call(key, [s])
        finally: P.cfg_opaque[key] = h
        if ('esc', P.key(s)) not in P.memo:
            P.memo[('esc', P.key(s))] = t
            a, b = str_len(s), str_len(t)
            P.assume_ge0(ladd(b, a, -1)); P.assume_ge0(ladd(ladd(0, a, 5), b, -1))
        return t
    return {key: h}
NORM = merged(inductive('Node', 'normalize', mknorm), esc_len)

def is_text(X, o): return X.is_type(o, 'Text')

@sc('normalize', 'C28 C04 C05 C31', cases=['Element', 'Attribute', 'Document', 'EntityReference', 'Entity', 'DocumentFragment', 'Text', 'CData', 'Comment', 'ProcessingInstruction', 'DocumentType', 'Notation'],
    K=3, KM=1, thorough=dict(K=4, KM=2), opq=NORM)
def _(X):
    o = X.node('self', {X.case}, parent=None)
    X.top = o
    X.m('Node', 'normalize', X.r(o))
    if not X.no_panic('C28'): return
    seen = [x for x, _k, _a, _v in X.summaries]
    allowed = set(); want = []; last = None; text = None
    merged_ = {}
    for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i):
        c = X.d.obj(h)
        if is_text(X, c):
            v = X.opt(X.d.init_field(c, 'i_value'))
            if v is None or X.P.s_is_empty(v):
                allowed |= {(o, 'i_child_nodes'), (c, 'i_parent_node')}
                X.link('C28 C04', c, 'i_parent_node', None, 'empty-removed'); continue
            if last is not None and is_text(X, last):
                merged_[last] = cat((merged_[last], v))
                allowed |= {(o, 'i_child_nodes'), (c, 'i_parent_node'), (last, 'i_value')}
                X.link('C28 C04', c, 'i_parent_node', None, 'merged-removed'); continue
            merged_[c] = v
        elif c not in seen and X.touched(c): X.P.imp('%s is normalised by other means' % c.name)
        else: X.ok('C28', c in seen, 'recursion', lambda: 'the subtree of %s is not normalised' % c.name)
        want.append(c); last = c
    X.same_kids('C28 C04', o, want, 'children')
    for c in want:
        X.link('C28 C04', c, 'i_parent_node', o, 'parent')
        if c in merged_:
            v = X.opt(X.d.field(c, 'i_value'))
            X.ok('C28', v is not None and X.same_str(v, merged_[c]), 'text', lambda: 'the text of %s is %s, must be %s' % (c.name, sstr(v) if v is not None else None, sstr(merged_[c])))
    if X.case == 'Element':
        for k, h in force_map(X, xmap(X, o, 'Element', 'i_attributes', init=True)):
            a = X.d.obj(h)
            if a not in seen and X.touched(a): X.P.imp('%s is normalised by other means' % a.name)
            else: X.ok('C28', a in seen, 'attributes', lambda: 'the attribute %s is not normalised' % a.name)
    X.changed_only('C28', allowed)

# ---------------------------------------------------------------- attribute values
def apps(X):
    return [(k, t) for k, t in X.P.memo.items() if k[0] == 'app']

@sc('attribute_value', 'C32 C06 C31', K=2, thorough=dict(K=3), keep=('attrvalue',))
def _(X):
    """the value is the escaped normal form of the text of the children"""
    o = X.node('self', {'Attribute'})
    X.m('Attribute', 'value', X.r(o))
    if not X.no_panic('C32'): return
    X.unchanged('C06', 'observer')
    got = X.opt(X.val)
    kids = [X.d.obj(h) for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i)]
    if not X.ok('C32', (got is None) == (not kids), 'presence', lambda: 'the value is %s of an attribute with %d children' % ('absent' if got is None else 'present', len(kids))): return
    if got is None: return
    parts = []
    for c in kids:
        v = X.opt(X.d.init_field(c, 'i_value'))
        if v is not None and X.is_type(c, 'Text', 'EntityReference'): parts.append(v)
    want = cat(tuple(parts))
    g = res(X.P.un(got))
    esc = [k for k, t in apps(X) if k[1].endswith('text::escape') and X.P.key(t) == X.P.key(g)]
    if not esc:
        if not any(k[1].endswith('text::escape') for k, t in apps(X)) and any(k.endswith('text::escape') for k in X.prog.B):
            X.ok('C32', False, 'escaped', lambda: 'the value is %s, must be escaped' % sstr(g))
        else: X.P.imp('escaping of the attribute value')
        return
    inner = [(k, t) for k, t in apps(X) if k[1].endswith('text::normalize_attribute_value')]
    if not inner:
        if any(k.endswith('text::normalize_attribute_value') for k in X.prog.B): X.ok('C32', False, 'normalised', 'the value is not normalised')
        else: X.P.imp('normalisation of the attribute value')
        return
    X.ok('C32', esc[0][2] == X.P.key(inner[0][1]) , 'normalised', 'the escaped text is not the normal form of the children\'s text')
    X.ok('C32', inner[0][0][2] == X.P.key(want), 'text', lambda: 'the normalised text is not %s' % sstr(want))

@sc('attribute_set_value', 'C32 C04 C05 C31', cases=['attribute', 'not an attribute'], K=2, thorough=dict(K=3), keep=('attrvalue',))
def _(X):
    D = X.doc('doc')
    o = X.node('self', {'Attribute'} if X.case == 'attribute' else ANYT - {'Attribute', 'Document'}, owner=D); v = X.s('value')
    X.m('Attribute', 'set_value', X.r(o), X.ref(v))
    if not X.expect('C32', {} if X.case == 'attribute' else {'InvalidState': 'C32'}): return
    old = [X.d.obj(h) for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i)]
    kids = [X.d.obj(x) for x in X.P.force(res(X.d.field(o, 'i_child_nodes')).i)]
    if X.ok('C32', len(kids) == 1 and kids[0] not in X.d.objs, 'one-text', lambda: 'the attribute has %d children' % len(kids)):
        t = kids[0]
        X.ok('C32', X.P.variant(fld(X, t, 'i_node_type')) == X.M.nt['Text'], 'text-type', 'the child of the attribute is not a text node')
        tv = X.opt(fld(X, t, 'i_value'))
        X.ok('C32', tv is not None and X.same_str(tv, v), 'text', 'the text child does not hold the value')
        X.ok('C32 C04', X.d.objopt(fld(X, t, 'i_parent_node')) is o, 'text-parent', 'the parent of the text child is not the attribute')
        X.ok('C32', X.d.objopt(fld(X, t, 'i_owner_document')) is D, 'text-document', 'the owner document of the text child')
    for c in old: X.link('C32 C04', c, 'i_parent_node', None, 'old-detached')
    X.changed_only('C32', {(o, 'i_child_nodes')} | {(c, 'i_parent_node') for c in old})

@sc('attribute_unset_value', 'C32 C04 C05 C31', cases=['attribute', 'not an attribute'], K=2, thorough=dict(K=3), keep=('attrvalue',))
def _(X):
    o = X.node('self', {'Attribute'} if X.case == 'attribute' else ANYT - {'Attribute'})
    X.m('Attribute', 'unset_value', X.r(o))
    if not X.expect('C32', {} if X.case == 'attribute' else {'InvalidState': 'C32'}): return
    old = [X.d.obj(h) for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i)]
    X.ok('C32', not X.P.force(res(X.d.field(o, 'i_child_nodes')).i), 'no-children', 'the attribute keeps children')
    for c in old: X.link('C32 C04', c, 'i_parent_node', None, 'old-detached')
    X.changed_only('C32', {(o, 'i_child_nodes')} | {(c, 'i_parent_node') for c in old})

# ---------------------------------------------------------------- searches by tag name
def mklist(P, o, args):
    d = P.dom
    def make(path, g, what): raise Unroll('the elements of a summary are looked at')
    return Seq((Gap(P, '%s.search' % o.name, make),))
FIND = {'get_elements_by_tag_name': inductive('Element', 'get_elements_by_tag_name', mklist),
        'get_elements_by_tag_name_ns': inductive('Element', 'get_elements_by_tag_name_ns', mklist)}

def qual(X, n):
    """the qualified name of a Name as text"""
    f = X.M.namef; p = X.opt(n.f[f['prefix']])
    return cat((p, ':', n.f[f['local_name']])) if p is not None else n.f[f['local_name']]

def hit(X, o, args):
    P = X.P; f = X.M.namef
    n = P.un(X.d.init_field(o, 'i_name'))
    if len(args) == 1: return P.s_eq(args[0], '*') or P.s_eq(qual(X, n), args[0])
    u = X.opt(n.f[f['namespace_uri']])
    if u is not None and P.s_eq(u, '*'): raise Prune()       # no element is in a namespace named '*'
    if not P.s_eq(args[0], '*'):
        if u is None or not P.s_eq(u, args[0]): return False
    return P.s_eq(args[1], '*') or P.s_eq(n.f[f['local_name']], args[1])

def found(X, o, args, meth):
    """expected result of the search below o"""
    out = []
    if not X.is_type(o, 'Element'): return out
    for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i):
        c = X.d.obj(h)
        if not X.is_type(c, 'Element'): continue
        if hit(X, c, args): out.append(c)
        s = X.summary('Element', meth, c, *args)
        if s is not None: out += list(flat_items(res(s).i))
        elif X.touched(c): out += found(X, c, args, meth)
        else: X.ok('C19', False, 'descends', lambda: 'the search does not descend into %s' % c.name)
    return out

def search_result(X, want):
    got = [x if x.__class__ is Gap else X.d.obj(x) for x in flat_items(res(X.P.un(X.val)).i)]
    X.ok('C19', len(got) == len(want) and all(a is b for a, b in zip(got, want)), 'result',
         lambda: 'finds %s, must be %s' % (nm_list(got), nm_list(want)))
def nm_list(l): return '[%s]' % ', '.join(x.name for x in l)

def search(meth):
    def f(X):
        o = X.node('self', ANYT if X.case == 'any' else {X.case})
        args = [X.s('name')] if not meth.endswith('_ns') else [X.s('uri'), X.s('local')]
        X.top = o
        X.m('Element', meth, X.r(o), *[X.ref(a) for a in args])
        if not X.no_panic('C19'): return
        X.unchanged('C06', 'observer')
        search_result(X, found(X, o, args, meth))
    return f
def search_doc(meth):
    def f(X):
        o = X.doc('self')
        args = [X.s('name')] if not meth.endswith('_ns') else [X.s('uri'), X.s('local')]
        X.m('Document', meth, X.r(o), *[X.ref(a) for a in args])
        if not X.no_panic('C19'): return
        X.unchanged('C06', 'observer')
        el = None
        for h in X.P.force(res(X.d.init_field(o, 'i_child_nodes')).i):
            c = X.d.obj(h)
            if X.is_type(c, 'Element'): el = c; break
        want = []
        if el is not None:
            if hit(X, el, args): want.append(el)
            s = X.summary('Element', meth, el, *args)
            if s is not None: want += list(flat_items(res(s).i))
            elif X.touched(el): want += found(X, el, args, meth)
            else: X.ok('C19', False, 'descends', 'the search does not descend into the document element')
        search_result(X, want)
    return f
for _m in FIND:
    sc(_m, 'C19 C06 C31', cases=['Element', 'any'], K=3, thorough=dict(K=4), opq=FIND[_m], depth_cut=True, DEPTH=2)(search(_m))
    sc(_m + '/document', 'C19 C06 C31', K=3, opq=FIND[_m], depth_cut=True, DEPTH=2)(search_doc(_m))

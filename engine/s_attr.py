"""attributes: maps, owner elements, identifier and namespace maps"""
from suite import *
import s_tree

XMLNS = 'http://www.w3.org/2000/xmlns/'
XMLURI = 'http://www.w3.org/XML/1998/namespace'

# ---------------------------------------------------------------- specification helpers
def parts(X, name):
    """(namespace uri or None, prefix or None, local) of a Name value"""
    v = X.P.un(name); f = X.M.namef
    return X.opt(v.f[f['namespace_uri']]), X.opt(v.f[f['prefix']]), v.f[f['local_name']]

def qname(X, name):
    v = X.P.un(name); f = X.M.namef
    p = X.opt(v.f[f['prefix']])
    l = v.f[f['local_name']]
    return l if p is None else cat((p, ':', l))

def same_attribute(X, a, b):
    """the same qualified name, or the same namespace and local name"""
    if X.P.s_eq(qname(X, a), qname(X, b)): return True
    f = X.M.namef
    na, nb = X.opt(X.P.un(a).f[f['namespace_uri']]), X.opt(X.P.un(b).f[f['namespace_uri']])
    if na is None or nb is None: return False
    return X.P.s_eq(na, nb) and X.P.s_eq(X.P.un(a).f[f['local_name']], X.P.un(b).f[f['local_name']])

def is_ns_attr(X, name):
    f = X.M.namef; v = X.P.un(name)
    ns = X.opt(v.f[f['namespace_uri']])
    if ns is None or not X.P.s_eq(ns, XMLNS): return False
    p = X.opt(v.f[f['prefix']])
    return X.P.s_eq(v.f[f['local_name']], 'xmlns') if p is None else X.P.s_eq(p, 'xmlns')

def mapped_prefix(X, name):
    f = X.M.namef; v = X.P.un(name)
    return NONE if X.opt(v.f[f['prefix']]) is None else some(v.f[f['local_name']])

def option(X, D, bit):
    """bit of the document's processing options"""
    if D is None: return False
    return X.P.truth(X.d.flags(D)[bit])

def is_id_attr(X, name, D):
    f = X.M.namef; v = X.P.un(name)
    if D is None or not X.P.s_eq(v.f[f['local_name']], 'id'): return False
    if option(X, D, 0): return True
    ns = X.opt(v.f[f['namespace_uri']])
    if ns is not None and X.P.s_eq(ns, XMLURI): return True
    p = X.opt(v.f[f['prefix']])
    return p is not None and X.P.s_eq(p, 'xml')

def value_of(X, o):
    """the value of attribute o (None or a string)"""
    v = X.P.call(X.prog.find('Attribute', 'value'), [X.r(o)])
    return X.opt(v)

def entries(X, m):
    m = X.P.map_flat(m)
    return [(k, v) for k, v in m.e], m.g

def xmap(X, o, vn, fn, init=False):
    return X.d.xfield(o, vn, fn, init=init)

def map_remove(X, m, key, cond=None):
    i, m = X.P.map_lookup(m, key)
    if i is None or (cond and not cond(m.e[i][1])): return m
    return MapV(m.e[:i] + m.e[i + 1:], m.g)

def map_insert(X, m, key, val):
    i, m = X.P.map_lookup(m, key)
    if i is not None: return MapV(m.e[:i] + ((m.e[i][0], val),) + m.e[i + 1:], m.g)
    return MapV(m.e + ((key, val),), m.g)

def map_eq(X, props, got, want, key, what):
    a, b = X.P.map_flat(got), X.P.map_flat(want)
    ka = {(X.P.key(k), X.P.key(v)) for k, v in a.e}; kb = {(X.P.key(k), X.P.key(v)) for k, v in b.e}
    return X.ok(props, ka == kb and a.g is b.g, key, lambda: '%s is %s, must be %s' % (what, vstr(X.P, a), vstr(X.P, b)))

def replaced(X, m, name):
    """entries of the attribute map that an attribute called `name` replaces"""
    out = []
    m = X.P.map_flat(m)
    for k, v in m.e:
        if same_attribute(X, k, name): out.append((k, v))
    while True:
        m = X.P.map_flat(m)
        g = m.g
        if g is None or g.bound is not None: break
        n = len(m.e)
        found, y, i, _ = stdm.seg_search(X.P, It('map', MapV((), g), None), lambda t: same_attribute(X, t.f[0], name), True)
        m = X.P.map_flat(m)
        if not found: break
        for k, v in m.e[n:]:
            if same_attribute(X, k, name): out.append((k, v))
    return out

def set_spec(X, e, D, n, name, value):
    """post-state of putting attribute n, called name, on element e; D the document"""
    P = X.P
    am = xmap(X, e, 'Element', 'i_attributes', init=True)
    rep = replaced(X, am, name)
    want = X.P.map_flat(am)
    want = MapV(tuple((k, v) for k, v in want.e if not any(v is r for _, r in rep)) + ((name, X.h(n)),), want.g)
    map_eq(X, 'C08', xmap(X, e, 'Element', 'i_attributes'), want, 'attributes', 'the attribute map')
    got = X.d.objopt(X.d.xfield(n, 'Attribute', 'i_owner_element'))
    X.ok('C08', got is e, 'owner-element', 'the owner element of the new attribute is not the element')
    allowed = {(e, 'i_attributes'), (e, 'i_namespaces'), (D, 'i_id_map'), (n, 'i_owner_element')}
    idm = xmap(X, D, 'Document', 'i_id_map', init=True) if D else None
    nsm = xmap(X, e, 'Element', 'i_namespaces', init=True)
    for k, v in rep:
        r = X.d.obj(v)
        if r is not n:
            X.ok('C08', X.d.objopt(X.d.xfield(r, 'Attribute', 'i_owner_element')) is None, 'replaced-owner', 'a replaced attribute keeps its owner element')
            allowed.add((r, 'i_owner_element'))
        if is_id_attr(X, k, D):
            rv = value_of(X, r)
            if rv is not None: idm = map_remove(X, idm, rv, lambda w: X.d.obj(w) is e)
        if option(X, D, 2) and is_ns_attr(X, k): nsm = map_remove(X, nsm, mapped_prefix(X, k))
    if is_id_attr(X, name, D):
        if value is not None: idm = map_insert(X, idm, value, X.d.weak(e))
    if option(X, D, 2) and is_ns_attr(X, name) and value is not None:
        nsm = map_insert(X, nsm, mapped_prefix(X, name), value)
    if D: map_eq(X, 'C09 C23', X.d.alive(xmap(X, D, 'Document', 'i_id_map')), X.d.alive(idm), 'id-map', 'the identifier map')
    map_eq(X, 'C10 C23', xmap(X, e, 'Element', 'i_namespaces'), nsm, 'namespaces', 'the namespace map')
    X.changed_only('C08', allowed)

def duplicate_id(X, e, D, name, value):
    if D is None or value is None or not is_id_attr(X, name, D): return False
    i, m = X.P.map_lookup(xmap(X, D, 'Document', 'i_id_map', init=True), value)
    if i is None: return False
    o = X.d.obj(m.e[i][1])
    return o is not e and not o.dead

def attribute_of(X, e, name='attr', nm=None, D=None):
    """an attribute that is on element e"""
    n = X.node(name, {'Attribute'}, owner=D, parent=None, nm=nm, ext={'i_owner_element': some(X.d.weak(e))})
    m = xmap(X, e, 'Element', 'i_attributes')
    rc = e.c.v; a = list(rc.c.v.f); x = res(a[X.M.f['i_extension']])
    f = list(x.f); j = X.M.xf['Element']['i_attributes']
    f[j] = MapV(((X.d.field(n, 'i_name'), X.h(n)),) + m.e, m.g)
    a[X.M.f['i_extension']] = Adt(x.p, x.vi, tuple(f)); rc.c.v = Adt(X.M.NI, 0, tuple(a)); e.node['init'] = rc.c.v
    n.node['element'] = e
    return n

AP = 'C05 C07 C08 C09 C10 C23 C31'

# ---------------------------------------------------------------- set_attribute_node
def san(X, meth):
    case = X.case
    D = X.doc('doc')
    if case == 'self not an element':
        e = X.node('self', ANYT - {'Document', 'Element'}, owner=D); n = X.node('new', {'Attribute'}, owner=D, parent=None)
        X.m('Element', meth, X.r(e), X.h(n)); X.expect('C08', {'InvalidState': 'C08'}); return
    # the parents of the element are looked at to find out whether the attribute contains it
    par = {'parent': None}
    if case == 'attached': par = {'parent': 'lazy', 'up': 1}
    elif case == 'in its value': par = {}
    e = X.node('self', {'Element'}, owner=D, **par)
    D.node['idcand'] = [e] if meth == 'set_attribute_node' and case != 'former owner dropped' else None
    if case == 'not an attribute':
        n = X.node('new', ANYT - {'Document', 'Attribute'}, owner=D, parent=None)
        X.m('Element', meth, X.r(e), X.h(n)); X.expect('C08', {'InvalidState': 'C08'}); return
    errs = {}
    if case == 'on self': n = attribute_of(X, e, 'new', D=D)
    elif case == 'on another':
        e2 = X.node('other', {'Element'}, owner=D); n = attribute_of(X, e2, 'new', D=D); errs['InUseAttribute'] = 'C08'
    elif case == 'former owner dropped':
        e2 = X.node('dropped', {'Element'}, owner=D, parent=None); n = attribute_of(X, e2, 'new', D=D); e2.dead = True; D.node['flags'] = [False] * 3
    elif case == 'in its value':
        n = X.node('new', {'Attribute'}, owner=D, parent=None, ext={'i_owner_element': NONE}); r = X.node('ref', {'EntityReference'}, owner=D)
        s_tree.chain(X, n, r); s_tree.chain(X, r, e); D.node['flags'] = [False] * 3; errs['HierarchyRequest'] = 'C02'
    elif case == 'foreign':
        D2 = X.doc('doc2'); n = X.node('new', {'Attribute'}, owner=D2, parent=None, ext={'i_owner_element': NONE}); errs['WrongDocument'] = 'C08 C03'
    elif case == 'two replaced':
        # options without effect on this: the partition of names is the point here
        D.node['flags'] = [False] * 3
        nm = X.d.name('new', ns=some(X.s('ns')), prefix=some(pfx(X, 'p')), local='a')
        n = X.node('new', {'Attribute'}, owner=D, parent=None, nm=nm, ext={'i_owner_element': NONE})
    else:
        n = X.node('new', {'Attribute'}, owner=D, parent=None, ext={'i_owner_element': NONE})
        if case in ('free, no options', 'attached'): D.node['flags'] = [False] * 3
    name = X.d.field(n, 'i_name'); val = value_of(X, n) if case != 'two replaced' else None
    X.m('Element', meth, X.r(e), X.h(n))
    if case not in ('foreign', 'on another') and duplicate_id(X, e, D, name, val): errs['Syntax'] = 'C09'
    elif errs: errs['Syntax'] = 'C09'
    if X.expect('C08', errs):
        if case == 'two replaced': val = value_of(X, n)
        set_spec(X, e, D, n, name, val)
        k, v = X.result()
        X.ok('C08', X.d.obj(v) is n, 'returns-attribute', 'the result is not the new attribute')

def pfx(X, n):
    x = SSym(X.P, n); x.nonempty = True; x.no = frozenset(':'); return x

SAN = ['attached', 'former owner dropped', 'in its value', 'free', 'free, no options', 'on self', 'on another', 'foreign', 'not an attribute', 'self not an element']
@sc('set_attribute_node', AP + ' C02 C03', cases=SAN, KM=1, thorough=dict(KM=2))
def _(X): san(X, 'set_attribute_node')
@sc('set_attribute_node/replacing', AP + ' C03', cases=['two replaced'], KM=2)
def _(X): san(X, 'set_attribute_node')
@sc('set_attribute_node_ns', AP + ' C03', cases=SAN[3:], KM=1)
def _(X): san(X, 'set_attribute_node_ns')

# ---------------------------------------------------------------- remove_attribute_node
def detach_spec(X, e, D, n, name, value):
    am = X.P.map_flat(xmap(X, e, 'Element', 'i_attributes', init=True))
    want = MapV(tuple((k, v) for k, v in am.e if X.d.obj(v) is not n), am.g)
    map_eq(X, 'C08', xmap(X, e, 'Element', 'i_attributes'), want, 'attributes', 'the attribute map')
    X.ok('C08', X.d.objopt(X.d.xfield(n, 'Attribute', 'i_owner_element')) is None, 'removed-owner', 'the removed attribute keeps its owner element')
    idm = xmap(X, D, 'Document', 'i_id_map', init=True)
    if is_id_attr(X, name, D) and value is not None: idm = map_remove(X, idm, value, lambda w: X.d.obj(w) is e)
    map_eq(X, 'C09 C23', X.d.alive(xmap(X, D, 'Document', 'i_id_map')), X.d.alive(idm), 'id-map', 'the identifier map')
    nsm = xmap(X, e, 'Element', 'i_namespaces', init=True)
    if option(X, D, 2) and is_ns_attr(X, name): nsm = map_remove(X, nsm, mapped_prefix(X, name))
    map_eq(X, 'C10 C23', xmap(X, e, 'Element', 'i_namespaces'), nsm, 'namespaces', 'the namespace map')
    X.changed_only('C08', {(e, 'i_attributes'), (e, 'i_namespaces'), (D, 'i_id_map'), (n, 'i_owner_element')})

@sc('remove_attribute_node', AP, cases=['of self', 'free', 'of another', 'not an attribute', 'self not an element'], KM=1)
def _(X):
    case = X.case
    D = X.doc('doc')
    if case == 'self not an element':
        e = X.node('self', ANYT - {'Document', 'Element'}, owner=D); n = X.node('old', {'Attribute'}, owner=D, parent=None)
        X.m('Element', 'remove_attribute_node', X.r(e), X.h(n)); X.expect('C08', {'InvalidState': 'C08'}); return
    e = X.node('self', {'Element'}, owner=D)
    D.node['idcand'] = [e]
    if case == 'of self': n = attribute_of(X, e, 'old', D=D)
    elif case == 'of another':
        e2 = X.node('other', {'Element'}, owner=D); n = attribute_of(X, e2, 'old', D=D)
    elif case == 'not an attribute': n = X.node('old', ANYT - {'Attribute', 'Document'}, owner=D, parent=None)
    else: n = X.node('old', {'Attribute'}, owner=D, parent=None, ext={'i_owner_element': NONE})
    name = X.d.field(n, 'i_name')
    val = value_of(X, n) if case == 'of self' else None
    X.m('Element', 'remove_attribute_node', X.r(e), X.h(n))
    if X.expect('C08', {} if case == 'of self' else {'NotFound': 'C08'} if case != 'not an attribute' else {'NotFound': 'C08', 'InvalidState': 'C08'}):
        detach_spec(X, e, D, n, name, val)
        k, v = X.result()
        X.ok('C08', X.d.obj(v) is n, 'returns-attribute', 'the result is not the removed attribute')

# ---------------------------------------------------------------- by name
def from_str(X, s):
    """the Name of a string, as a result: ('ok', name) / ('err', code)"""
    k = [k for k in X.prog.B if k.endswith('name::Name as std::str::FromStr>::from_str')][0]
    v = res(X.P.call(k, [X.ref(s) if s.__class__ is not Ref else s]))
    vi = X.P.variant(v); v = res(v)
    if vi == 0: return 'ok', v.f[0]
    return 'err', X.M.errn[X.P.variant(res(v.f[0]))]

def new_ns(X, ns, s):
    """the Name of a namespace uri and a qualified name"""
    k, v = from_str(X, s)
    if k == 'err': return k, {v}
    u = X.P.un(ns); f = X.M.namef; v = X.P.un(v)
    if X.P.s_is_empty(u): return 'err', {'Syntax'}
    bad = False
    p = X.opt(v.f[f['prefix']]); l = v.f[f['local_name']]
    for part in ([p] if p is not None else []) + [l]:
        if X.P.s_eq(part, 'xml') and not X.P.s_eq(u, XMLURI): bad = True
        if X.P.s_eq(part, 'xmlns') and not X.P.s_eq(u, XMLNS): bad = True
    if bad: return 'err', {'Namespace'}
    fs = list(v.f); fs[f['namespace_uri']] = some(u)
    return 'ok', Adt(v.p, v.vi, tuple(fs))

def set_by_name(X, meth):
    D = X.doc('doc')
    e = X.node('self', {'Element'} if X.case != 'self not an element' else ANYT - {'Document', 'Element'}, owner=D, parent=None)
    D.node['idcand'] = [e]
    val = X.s('value')
    if X.case == 'no options': D.node['flags'] = [False] * 3
    if meth == 'set_attribute':
        q = X.s('name'); k, nm = from_str(X, q)
        errs = {nm} if k == 'err' else None
        X.m('Element', meth, X.r(e), X.ref(q), X.ref(val))
    else:
        u, q = X.s('uri'), X.s('name')
        k, nm = new_ns(X, u, q); errs = nm if k == 'err' else None
        X.m('Element', meth, X.r(e), X.ref(u), X.ref(q), X.ref(val))
    if X.case == 'self not an element': errs = (errs or set()) | {'InvalidState'}
    if errs is not None:
        X.expect('C08', {x: 'C08' for x in errs}); return
    # the attribute node that was created
    if not X.no_panic('C08'): return
    kind, r = X.result()
    if kind == 'err':
        v = normalized(X, val)
        X.expect('C08', {'Syntax': 'C09'} if duplicate_id(X, e, D, nm, v) else {})
        return
    m = X.P.map_flat(xmap(X, e, 'Element', 'i_attributes'))
    new = [(k_, X.d.obj(v)) for k_, v in m.e if not X.d.obj(v).node]
    if not X.ok('C08', len(new) == 1, 'one-new-attribute', lambda: '%d new attributes in the map' % len(new)): return
    n = new[0][1]
    X.ok('C08', X.P.same(new[0][0], nm), 'name', lambda: 'the attribute is filed under %s, must be %s' % (vstr(X.P, new[0][0]), vstr(X.P, nm)))
    fresh_attribute(X, n, nm, D, val)
    v = value_of(X, n)
    X.ok('C08', not duplicate_id(X, e, D, nm, v), 'duplicate-id', 'an identifier of another element is accepted')
    set_spec(X, e, D, n, nm, v)

def normalized(X, val):
    """value of an attribute holding one text child `val` (the uninterpreted normalisation and escape)"""
    import suite
    ka = [k for k in X.prog.B if k.endswith('text::normalize_attribute_value')][0]
    for k0, t in X.P.memo.items():
        if k0[0] == 'app' and k0[1].endswith('text::escape'): return t
    return None

def newobj(X, o): return res(res(o.c.v).c.v)
def fld(X, o, f): return newobj(X, o).f[X.M.f[f]]

def fresh_attribute(X, n, nm, D, val, props='C08'):
    X.ok(props, X.P.variant(fld(X, n, 'i_node_type')) == X.M.nt['Attribute'], 'new-type', 'the new node is not an attribute')
    X.ok(props, X.P.same(fld(X, n, 'i_name'), nm), 'new-name', 'the name of the new attribute differs from the requested one')
    X.ok(props, X.d.objopt(fld(X, n, 'i_owner_document')) is D, 'new-owner-document', 'the owner document of the new attribute')
    kids = [X.d.obj(x) for x in flat_items(res(fld(X, n, 'i_child_nodes')).i)]
    if X.ok(props, len(kids) == 1, 'value-child', 'the new attribute must have one text child'):
        t = kids[0]
        X.ok(props, X.P.variant(fld(X, t, 'i_node_type')) == X.M.nt['Text'], 'value-child-type', 'the child of the attribute is not a text node')
        tv = X.opt(fld(X, t, 'i_value'))
        X.ok(props, tv is not None and X.P.same(tv, val), 'value-child-data', 'the text child does not hold the value')
        X.ok(props, X.d.objopt(fld(X, t, 'i_parent_node')) is n, 'value-child-parent', 'the parent of the text child is not the attribute')
        X.ok(props, X.d.objopt(fld(X, t, 'i_owner_document')) is D, 'value-child-document', 'the owner document of the text child')

@sc('set_attribute', AP, cases=['no options', 'any', 'self not an element'], KM=1)
def _(X): set_by_name(X, 'set_attribute')
@sc('set_attribute_ns', AP, cases=['no options', 'any', 'self not an element'], KM=1)
def _(X): set_by_name(X, 'set_attribute_ns')

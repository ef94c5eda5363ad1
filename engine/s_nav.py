"""navigation, values, accessors, conversions: operations that observe"""
from suite import *
from s_create import optstr, same_name, impl
from s_attr import attribute_of, parts, qname, from_str, new_ns, value_of, entries, xmap, map_eq

OBS = ' C06 C31'
def observed(X, props):
    if not X.no_panic(props): return False
    X.unchanged('C06', 'observer')
    return True

def handles(X, v):
    """the nodes of a Vec of handles (with summaries)"""
    return [x if x.__class__ is Gap else X.d.obj(x) for x in flat_items(X.P.un(v).i)]

def same_list(a, b): return len(a) == len(b) and all(x is y for x, y in zip(a, b))

def any_node(X, types=ANYT):
    return X.node('self', types)

def kids_of(X, o): return flat(X.init_kids(o))

# ---------------------------------------------------------------- parents, siblings, children
@sc('parent_node', 'C18' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'parent_node', X.r(o))
    if not observed(X, 'C18'): return
    got = X.d.objopt(X.val)
    want = None if X.is_type(o, 'Attribute') else X.d.objopt(X.d.init_field(o, 'i_parent_node'))
    X.ok('C18', got is want, 'parent', lambda: 'the parent is %s, must be %s' % (got and got.name, want and want.name))

@sc('owner_document', 'C18' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'owner_document', X.r(o))
    if not observed(X, 'C18'): return
    got = X.d.objopt(X.val); want = X.d.objopt(X.d.init_field(o, 'i_owner_document'))
    X.ok('C18', got is want, 'owner', lambda: 'the owner document is %s, must be %s' % (got and got.name, want and want.name))

@sc('owner_element', 'C18 C08' + OBS)
def _(X):
    o = any_node(X)
    X.m('Attribute', 'owner_element', X.r(o))
    if not observed(X, 'C08'): return
    got = X.d.objopt(X.val)
    want = X.d.objopt(X.d.xfield(o, 'Attribute', 'i_owner_element', init=True)) if X.is_type(o, 'Attribute') else None
    X.ok('C08', got is want, 'owner-element', lambda: 'the owner element is %s, must be %s' % (got and got.name, want and want.name))

@sc('child_nodes', 'C18' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'child_nodes', X.r(o))
    if not observed(X, 'C18'): return
    got = handles(X, X.val)
    X.ok('C18', same_list(got, kids_of(X, o)), 'children', lambda: 'the children are %s, must be %s' % (X.names(got), X.names(kids_of(X, o))))

@sc('first_last_child', 'C18' + OBS, cases=['first_child', 'last_child'])
def _(X):
    o = any_node(X)
    X.m('Node', X.case, X.r(o))
    if not observed(X, 'C18'): return
    got = X.d.objopt(X.val)
    f, x, _r = (X.P.first if X.case == 'first_child' else X.P.last)(tuple(X.d.init_kids(o)))
    want = X.d.obj(x) if f else None
    X.ok('C18', got is want, 'child', lambda: 'the result is %s, must be %s' % (got and got.name, want and want.name))

@sc('has_child_nodes', 'C18' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'has_child_nodes', X.r(o))
    if not observed(X, 'C18'): return
    got = X.P.truth(X.val)
    f, x, _r = X.P.first(tuple(X.d.init_kids(o)))
    X.ok('C18', got == f, 'has', lambda: 'reports %s, must be %s' % (got, f))

@sc('sibling', 'C18' + OBS, cases=['previous_sibling', 'next_sibling'], K=3, thorough=dict(K=4))
def _(X):
    o = any_node(X)
    X.m('Node', X.case, X.r(o))
    if not observed(X, 'C18'): return
    got = X.d.objopt(X.val)
    want = None
    if not X.is_type(o, 'Attribute'):
        p = X.d.objopt(X.d.init_field(o, 'i_parent_node'))
        if p is not None:
            items = X.d.init_kids(p)
            at = [i for i, x in enumerate(items) if x.__class__ is not Gap and X.d.obj(x) is o]
            if at:
                rest = tuple(items[:at[0]]) if X.case == 'previous_sibling' else tuple(items[at[0] + 1:])
                f, x, _r = (X.P.last if X.case == 'previous_sibling' else X.P.first)(rest)
                want = X.d.obj(x) if f else None
    X.ok('C18', got is want, 'sibling', lambda: 'the sibling is %s, must be %s' % (got and got.name, want and want.name))

@sc('node_type', 'C12' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'node_type', X.r(o))
    if not observed(X, 'C12'): return
    got = X.M.ntn[X.P.variant(X.P.un(X.val))]
    X.ok('C12', got == X.d.type(o), 'type', lambda: 'the type is %s, must be %s' % (got, X.d.type(o)))

@sc('node_name', 'C18' + OBS, cases=['node_name', 'namespace_uri', 'local_name', 'prefix', 'tag_name', 'target'])
def _(X):
    t = {'tag_name': ('Element', {'Element'}), 'target': ('ProcessingInstruction', {'ProcessingInstruction'})}.get(X.case, ('Node', ANYT))
    o = any_node(X, t[1])
    X.m(t[0], X.case, X.r(o))
    if not observed(X, 'C18'): return
    n = X.d.init_field(o, 'i_name')
    ns, p, l = parts(X, n)
    if X.case == 'node_name': same_name(X, 'C18', X.val, n)
    elif X.case == 'namespace_uri': optstr(X, 'C18', X.val, ns, 'ns', 'the namespace')
    elif X.case == 'prefix': optstr(X, 'C18', X.val, p, 'prefix', 'the prefix')
    elif X.case == 'local_name': X.ok('C18', X.same_str(X.val, l), 'local', 'the local name')
    else: X.ok('C18', X.same_str(X.val, qname(X, n)), 'qname', lambda: 'the name is %s, must be %s' % (vstr(X.P, X.val), sstr(qname(X, n))))

# ---------------------------------------------------------------- values
VALUED = {'CData', 'Comment', 'ProcessingInstruction', 'Text'}
@sc('node_value', 'C21' + OBS)
def _(X):
    o = any_node(X, ANYT - {'EntityReference'})
    X.m('Node', 'node_value', X.r(o))
    if not observed(X, 'C21'): return
    if X.is_type(o, *VALUED): optstr(X, 'C21', X.val, X.opt(X.d.init_field(o, 'i_value')), 'value', 'the value')

@sc('set_node_value', 'C21 C05 C31')
def _(X):
    o = any_node(X)
    a = X.s('value')
    X.m('Node', 'set_node_value', X.r(o), X.ref(a))
    if not X.expect('C21', {}): return
    if X.is_type(o, *VALUED):
        optstr(X, 'C21', X.d.field(o, 'i_value'), a, 'value', 'the value'); X.changed_only('C21', {(o, 'i_value')})
    else: X.unchanged('C21', 'no-effect')

@sc('unset_node_value', 'C21 C05 C31')
def _(X):
    o = any_node(X)
    X.m('Node', 'unset_node_value', X.r(o))
    if not X.expect('C21', {}): return
    if X.is_type(o, *VALUED):
        optstr(X, 'C21', X.d.field(o, 'i_value'), None, 'value', 'the value'); X.changed_only('C21', {(o, 'i_value')})
    else: X.unchanged('C21', 'no-effect')

@sc('pi_data', 'C21 C05 C06 C31', cases=['length', 'data', 'set_data', 'unset_data'])
def _(X):
    o = any_node(X, {'ProcessingInstruction'})
    v = X.opt(X.d.init_field(o, 'i_value'))
    if X.case == 'set_data':
        a = X.s('new')
        X.m('ProcessingInstruction', X.case, X.r(o), X.ref(a))
        if X.expect('C21', {}): optstr(X, 'C21', X.d.field(o, 'i_value'), a, 'value', 'the data'); X.changed_only('C21', {(o, 'i_value')})
        return
    X.m('ProcessingInstruction', X.case, X.r(o))
    if X.case == 'unset_data':
        if X.expect('C21', {}): optstr(X, 'C21', X.d.field(o, 'i_value'), None, 'value', 'the data'); X.changed_only('C21', {(o, 'i_value')})
        return
    if not observed(X, 'C21'): return
    if X.case == 'data': optstr(X, 'C21', X.val, v, 'data', 'the data')
    else: X.ok('C21', X.P.entails_eq(X.P.un(X.val), str_len(v) if v is not None else 0), 'length', lambda: 'the length is %s' % vstr(X.P, X.val))

# ---------------------------------------------------------------- attributes
def map_of(X, v):
    return X.P.map_flat(X.P.un(v))

@sc('attributes', 'C18 C20' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'attributes', X.r(o))
    if not observed(X, 'C18'): return
    m = map_of(X, X.val)
    if not X.is_type(o, 'Element'): X.ok('C18', not m.e and m.g is None, 'none', 'a node that is not an element has attributes'); return
    w = X.P.map_flat(xmap(X, o, 'Element', 'i_attributes', init=True))
    X.ok('C18', {(X.P.key(k), X.P.key(v)) for k, v in m.e} == {(X.P.key(k), X.P.key(v)) for k, v in w.e} and m.g is w.g, 'attributes', 'the attributes differ from the attribute map')

@sc('has_attributes', 'C20' + OBS)
def _(X):
    o = any_node(X)
    X.m('Node', 'has_attributes', X.r(o))
    if not observed(X, 'C20'): return
    got = X.P.truth(X.val)
    want = False
    if X.is_type(o, 'Element'):
        m = X.P.map_flat(xmap(X, o, 'Element', 'i_attributes', init=True))
        if not m.e and m.g is not None: X.P.mg_take(m.g); m = X.P.map_flat(m)
        want = bool(m.e)
    X.ok('C20', got == want, 'has', lambda: 'reports %s, must be %s' % (got, want))

def find_attr(X, o, pred):
    """every attribute of element o with the predicate (over name): definite list"""
    m = X.P.map_flat(xmap(X, o, 'Element', 'i_attributes', init=True))
    out = [(k, v) for k, v in m.e if pred(k)]
    while True:
        m = X.P.map_flat(m); g = m.g
        if g is None: break
        n = len(m.e)
        found, y, i, _ = stdm.seg_search(X.P, It('map', MapV((), g), None), lambda t: pred(t.f[0]), True)
        m = X.P.map_flat(m)
        if not found: break
        out += [(k, v) for k, v in m.e[n:] if pred(k)]
    return [X.d.obj(v) for k, v in out]

def lookup(X, ns, op):
    """attribute lookup, by name or namespace; the specification of what must be found"""
    o = any_node(X, ANYT if op != 'remove' else {'Element'})
    q = X.s('name'); u = X.s('uri') if ns else None
    if ns: q.no = frozenset(':')          # a local name
    suffix = '_ns' if ns else ''
    meth = {'node': 'get_attribute_node', 'has': 'has_attribute', 'get': 'get_attribute', 'remove': 'remove_attribute'}[op] + suffix
    args = [X.ref(u), X.ref(q)] if ns else [X.ref(q)]
    X.m('Element', meth, X.r(o), *args)
    if op != 'remove':
        if not observed(X, 'C20'): return
    elif not X.no_panic('C20'): return
    P = X.P
    want = []
    if X.is_type(o, 'Element'):
        if ns: k, nm = new_ns(X, u, q)
        else: k, nm = from_str(X, q)
        if k == 'ok':
            if ns:
                l = parts(X, nm)[2]
                def pred(k):
                    kn, kp, kl = parts(X, k)
                    return kn is not None and P.s_eq(kn, u) and P.s_eq(kl, l)
            else: pred = lambda k: P.s_eq(qname(X, k), qname(X, nm))
            want = find_attr(X, o, pred)
    if op == 'node':
        got = X.d.objopt(X.val)
        X.ok('C20', (got is None) if not want else got in want, 'found', lambda: 'finds %s, must be %s' % (got and got.name, [w.name for w in want]))
    elif op == 'has':
        got = P.truth(X.val)
        X.ok('C20', got == bool(want), 'has', lambda: 'reports %s, the attributes of this name are %s' % (got, [w.name for w in want]))
    elif op == 'get':
        got = X.opt(X.val)
        vals = [value_of(X, w) for w in want]
        X.ok('C20', (got is None) if not want else any((got is None) == (v is None) and (v is None or X.same_str(got, v)) for v in vals), 'value',
             lambda: 'the value is %s, must be %s' % (None if got is None else sstr(got), [v and sstr(v) for v in vals]))
    else:
        if not X.expect('C20', {}): return
        m0 = P.map_flat(xmap(X, o, 'Element', 'i_attributes', init=True)); m1 = P.map_flat(xmap(X, o, 'Element', 'i_attributes'))
        o0 = [X.d.obj(v) for k, v in m0.e]; o1 = [X.d.obj(v) for k, v in m1.e]
        gone = [x for x in o0 if x not in o1]
        X.ok('C20', m0.g is m1.g and all(x in o0 for x in o1) and all(x in want for x in gone) and (not want or len(gone) >= 1), 'removed',
             lambda: 'removes %s, must be %s' % ([x.name for x in gone], [w.name for w in want]))
        if not want: X.unchanged('C20', 'nothing-to-remove')

for _op in ('node', 'has', 'get', 'remove'):
    for _ns in (False, True):
        def _f(X, op=_op, ns=_ns): lookup(X, ns, op)
        _f.__module__ = __name__
        sc('%s_attribute%s' % ({'node': 'get_node', 'get': 'get'}.get(_op, _op), '_ns' if _ns else ''), 'C20' + OBS, KM=1, thorough=dict(KM=2))(_f)

# ---------------------------------------------------------------- accessors
@sc('document_accessors', 'C35' + OBS, cases=['doc_type', 'document_element', 'implementation', 'xml_declaration'], K=3)
def _(X):
    D = X.doc('doc')
    X.m('DocumentDecl' if X.case == 'xml_declaration' else 'Document', X.case, X.r(D))
    if not observed(X, 'C35'): return
    if X.case == 'doc_type':
        got = X.d.objopt(X.val); want = X.d.objopt(X.d.xfield(D, 'Document', 'i_document_type', init=True))
        X.ok('C35', got is want, 'doc-type', 'the document type')
    elif X.case == 'document_element':
        got = X.d.objopt(X.val)
        items = X.init_kids(D)
        f, x, i, rest = stdm.seg_search(X.P, It('items', tuple(X.d.init_kids(D))), lambda h: X.is_type(X.d.obj(h), 'Element'), True)
        want = X.d.obj(x) if f else None
        X.ok('C35', got is want, 'root', lambda: 'the document element is %s, must be %s' % (got and got.name, want and want.name))
    elif X.case == 'xml_declaration':
        X.ok('C35', X.P.same(X.val, X.d.xfield(D, 'Document', 'i_xml_declaration', init=True)), 'declaration', 'the XML declaration')

@sc('set_xml_declaration', 'C35 C05 C31')
def _(X):
    o = any_node(X)
    decl = Sym(X.P, X.M.DECL, 'decl', frozenset({0}))
    X.m('DocumentDecl', 'set_xml_declaration', X.r(o), decl)
    if X.expect('C35', {} if X.is_type(o, 'Document') else {'InvalidState': 'C35'}):
        d = X.opt(X.d.xfield(o, 'Document', 'i_xml_declaration'))
        X.ok('C35', d is not None and X.P.same(d, decl), 'declaration', 'the XML declaration')
        X.changed_only('C35', {(o, 'i_xml_declaration')})

IDS = [('DocumentType', 'public_id', 'i_public_id'), ('DocumentType', 'system_id', 'i_system_id'), ('DocumentType', 'internal_subset', 'i_internal_subset'),
       ('Entity', 'public_id', 'i_public_id'), ('Entity', 'system_id', 'i_system_id'), ('Entity', 'notation_name', 'i_notation_name'),
       ('Notation', 'public_id', 'i_public_id'), ('Notation', 'system_id', 'i_system_id')]
@sc('identifiers', 'C35' + OBS, cases=IDS)
def _(X):
    t, meth, fn = X.case
    o = any_node(X)
    X.m(t, meth, X.r(o))
    if not observed(X, 'C35'): return
    want = X.opt(X.d.xfield(o, t, fn, init=True)) if X.is_type(o, t) else None
    optstr(X, 'C35', X.val, want, 'value', '%s of a %s' % (meth, t))

@sc('entities', 'C35' + OBS, cases=['entities', 'notations'])
def _(X):
    o = any_node(X)
    X.m('DocumentType', X.case, X.r(o))
    if not observed(X, 'C35'): return
    m = map_of(X, X.val)
    if not X.is_type(o, 'DocumentType'): X.ok('C35', not m.e and m.g is None, 'none', 'a node that is not a document type has %s' % X.case); return
    w = X.P.map_flat(X.d.xfield(o, 'DocumentType', 'i_' + X.case, init=True))
    X.ok('C35', {(X.P.key(k), X.P.key(v)) for k, v in m.e} == {(X.P.key(k), X.P.key(v)) for k, v in w.e} and m.g is w.g, 'map', 'the %s differ from those of the document type' % X.case)

@sc('specified', 'C35' + OBS)
def _(X):
    o = any_node(X, {'Attribute'})
    X.m('Attribute', 'specified', X.r(o))
    if observed(X, 'C35'): X.ok('C35', X.P.truth(X.val) is True, 'specified', 'an attribute is not specified')

# ---------------------------------------------------------------- identifiers
@sc('get_element_by_id', 'C09' + OBS)
def _(X):
    o = any_node(X); q = X.s('id')
    X.m('Document', 'get_element_by_id', X.r(o), X.ref(q))
    if not observed(X, 'C09'): return
    got = X.d.objopt(X.val)
    want = None
    if X.is_type(o, 'Document'):
        i, m = X.P.map_lookup(X.d.xfield(o, 'Document', 'i_id_map', init=True), q)
        want = X.d.obj(m.e[i][1]) if i is not None else None
        if want is not None and want.dead: want = None           # the entry is of an element that no longer exists
    X.ok('C09', got is want, 'element', lambda: 'finds %s, must be %s' % (got and got.name, want and want.name))

# ---------------------------------------------------------------- conversions
CONV = [('attribute', {'Attribute'}), ('element', {'Element'}), ('character_data', {'CData', 'Comment', 'Text'}), ('text', {'Text'}),
        ('cdata_section', {'CData'}), ('entity_reference', {'EntityReference'}), ('entity', {'Entity'}), ('processing_instruction', {'ProcessingInstruction'}),
        ('comment', {'Comment'}), ('document', {'Document'}), ('document_type', {'DocumentType'}), ('document_fragment', {'DocumentFragment'}), ('notation', {'Notation'}),
        ('document_decl', {'Document'}), ('element_namespaced', {'Element'})]
def conv_cases():
    out = []
    for n, ts in CONV:
        mod = 'level2::ext::convert::' if n in ('document_decl', 'element_namespaced') else 'level2::convert::'
        out.append(('is', mod + ('is_' + n if n != 'entity' else 'is_entity_'), ts))
        out.append(('as', mod + 'as_' + n, ts))
        out.append(('as', mod + 'as_%s_mut' % n, ts))
    return out
@sc('conversion', 'C12' + OBS, cases=conv_cases())
def _(X):
    kind, fn, ts = X.case
    o = any_node(X)
    X.op(fn, X.r(o)) if fn in X.prog.B else anchor('function %s' % fn)
    if not observed(X, 'C12'): return
    want = X.is_type(o, *ts)
    if kind == 'is':
        X.ok('C12', X.P.truth(X.val) == want, 'is', lambda: '%s reports %s for a %s' % (fn, not want, X.d.type(o)))
        return
    k, v = X.result()
    X.ok('C12', (k == 'ok') == want, 'as', lambda: '%s %s for a %s' % (fn, 'succeeds' if k == 'ok' else 'fails', X.d.type(o)))
    if k == 'ok': X.ok('C12', X.d.obj(v) is o, 'same-node', '%s returns another node' % fn)
    elif not want: X.ok('C12', v == 'InvalidState', 'error', lambda: '%s fails with %s' % (fn, v))

def anchor(s): raise Anchor(s)

"""factories: what a new node is"""
from suite import *
from s_attr import from_str, new_ns, parts, XMLNS, XMLURI

NOEXT = {'i_owner_element': None}

def optstr(X, props, got, want, key, what):
    """Option<String> `got` against None / a string"""
    g = X.opt(got)
    X.ok(props, (g is None) == (want is None) and (g is None or X.same_str(g, want)), key,
         lambda: '%s is %s, must be %s' % (what, None if g is None else sstr(g), None if want is None else sstr(want)))

def is_new(X, props, o, ty, name, value, owner, ext=None, nchildren=0, parent=None):
    """o is a fresh node of this type, name and value that belongs to `owner` and to no tree"""
    P = X.P
    if not X.ok(props, not o.node, 'new-node', 'the result is not a new node'): return False
    X.ok(props + ' C12', P.variant(X.d.field(o, 'i_node_type')) == X.M.nt[ty], 'type', 'the new node is not of type %s' % ty)
    nm = P.un(X.d.field(o, 'i_name'))
    if name.__class__ is str:
        ns, p, l = parts(X, nm)
        X.ok(props + ' C18', ns is None and p is None and l == name, 'name', lambda: 'the new node is called %s, must be %s' % (vstr(P, nm), name))
    else:
        same_name(X, props + ' C18', nm, name)
    optstr(X, props + ' C21', X.d.field(o, 'i_value'), value, 'value', 'the value of the new node')
    X.ok(props, X.d.objopt(X.d.field(o, 'i_owner_document')) is owner, 'owner-document', 'the owner document of the new node')
    X.ok(props + (' C04' if parent is not None else ''), X.d.objopt(X.d.field(o, 'i_parent_node')) is parent, 'parent', 'the parent of the new node')
    kids = flat(X.kids(o))
    if nchildren is not None: X.ok(props, len(kids) == nchildren, 'children', 'the new node has %d children' % len(kids))
    x = res(X.d.field(o, 'i_extension'))
    if not X.ok(props, P.variant(x) == X.M.ext[EXTOF[ty]], 'extension', 'the new node lacks the parts of its type'): return False
    if ty == 'Element':
        for fn in ('i_attributes', 'i_namespaces'):
            m = P.map_flat(X.d.xfield(o, ty, fn))
            X.ok(props, not m.e and m.g is None, fn, 'the new element has attributes')
    if ty == 'Attribute': X.ok(props, X.d.objopt(X.d.xfield(o, ty, 'i_owner_element')) is None, 'owner-element', 'the new attribute has an owner element')
    return True

def same_name(X, props, got, want, key='name'):
    P = X.P
    g, w = parts(X, got), parts(X, want)
    X.ok(props, all((a is None) == (b is None) and (a is None or X.same_str(a, b)) for a, b in zip(g, w)), key,
         lambda: 'the name is %s, must be %s' % (vstr(P, P.un(got)), vstr(P, P.un(want))))

def result_node(X, props):
    k, v = X.result()
    return X.d.obj(v)

ST = 'C11 C12 C18 C21 C35 C04 C31'
def named(X, meth, ty, ns=False, value=False):
    D = X.doc('doc')
    q = X.s('name'); args = [X.ref(q)]
    u = X.s('uri') if ns else None
    if ns: args = [X.ref(u)] + args
    a = X.s('value') if value else None
    if value: args.append(X.ref(a))
    X.m('Document', meth, X.r(D), *args)
    k, nm = new_ns(X, u, q) if ns else from_str(X, q)
    errs = {e: 'C11' for e in (nm if nm.__class__ is set else {nm})} if k == 'err' else {}
    if not X.expect('C11', errs, atomic='C11'): return
    X.unchanged('C11', 'document')
    o = result_node(X, 'C11')
    if is_new(X, 'C11', o, ty, nm, None, D, nchildren=None if value else 0) and value:
        kids = flat(X.kids(o))
        if X.ok('C11', len(kids) == 1, 'value-child', 'the new attribute must hold one text child'):
            t = X.d.obj(kids[0])
            is_new(X, 'C11', t, 'Text', '#text', a, D, parent=o)

@sc('create_element', ST)
def _(X): named(X, 'create_element', 'Element')
@sc('create_element_ns', ST)
def _(X): named(X, 'create_element_ns', 'Element', True)
@sc('create_attribute', ST)
def _(X): named(X, 'create_attribute', 'Attribute')
@sc('create_attribute_ns', ST)
def _(X): named(X, 'create_attribute_ns', 'Attribute', True)
@sc('create_attribute_with', ST)
def _(X): named(X, 'create_attribute_with', 'Attribute', value=True)
@sc('create_entity_reference', ST)
def _(X): named(X, 'create_entity_reference', 'EntityReference')

@sc('create_data', ST, cases=['create_text_node', 'create_comment', 'create_cdata_section', 'create_document_fragment'])
def _(X):
    D = X.doc('doc'); a = X.s('data')
    ty = {'create_text_node': 'Text', 'create_comment': 'Comment', 'create_cdata_section': 'CData', 'create_document_fragment': 'DocumentFragment'}[X.case]
    nm = {'Text': '#text', 'Comment': '#comment', 'CData': '#cdata-section', 'DocumentFragment': '#document-fragment'}[ty]
    X.m('Document', X.case, X.r(D), *([X.ref(a)] if ty != 'DocumentFragment' else []))
    if not X.no_panic('C11'): return
    k, v = X.result()
    if not X.ok('C11', k != 'err', 'must-succeed', 'fails'): return
    X.unchanged('C11', 'document')
    is_new(X, 'C11', X.d.obj(v), ty, nm, a if ty != 'DocumentFragment' else None, D)

def lower(X, s): return stdm.M['str.to_ascii_lowercase'](X.P, [s], {'n': 'to_ascii_lowercase'}, None, None)

@sc('create_processing_instruction', ST)
def _(X):
    D = X.doc('doc'); q = X.s('target')
    data = X.pick('data', [None, 'some'])
    a = X.s('data') if data else None
    X.m('Document', 'create_processing_instruction', X.r(D), X.ref(q), some(X.ref(a)) if data else NONE)
    errs = {}
    if X.P.s_eq(lower(X, q), 'xml'): errs['Syntax'] = 'C11'
    k, nm = from_str(X, q)
    if k == 'err': errs[nm] = 'C11'
    if not X.expect('C11', errs, atomic='C11'): return
    X.unchanged('C11', 'document')
    is_new(X, 'C11', result_node(X, 'C11'), 'ProcessingInstruction', nm, a, D)

def ostr(X, name):
    a = X.pick(name, [None, 'some'])
    s = X.s(name) if a else None
    return s, (some(X.ref(s)) if a else NONE)

def impl(X): return Ref(Cell(Adt(X.d.impl_adt(), 0, ())))

@sc('create_document_type', ST)
def _(X):
    q = X.s('name'); p, pa = ostr(X, 'public'); s, sa = ostr(X, 'system')
    X.mi('DOMImplementation', 'create_document_type', 'Implementation', impl(X), X.ref(q), pa, sa)
    k, nm = from_str(X, q)
    if not X.expect('C11', {nm: 'C11'} if k == 'err' else {}, atomic=None): return
    o = result_node(X, 'C11')
    if is_new(X, 'C11', o, 'DocumentType', nm, None, None):
        optstr(X, 'C11 C35', X.d.xfield(o, 'DocumentType', 'i_public_id'), p, 'public-id', 'the public identifier')
        optstr(X, 'C11 C35', X.d.xfield(o, 'DocumentType', 'i_system_id'), s, 'system-id', 'the system identifier')
        optstr(X, 'C11 C35', X.d.xfield(o, 'DocumentType', 'i_internal_subset'), None, 'internal-subset', 'the internal subset')
        for fn in ('i_entities', 'i_notations'):
            m = X.P.map_flat(X.d.xfield(o, 'DocumentType', fn))
            X.ok('C11', not m.e and m.g is None, fn, 'the new document type has entities or notations')

@sc('create_document', ST + ' C23 C02', cases=['create_document', 'create_document_with_options'])
def _(X):
    u, ua = ostr(X, 'uri'); q, qa = ostr(X, 'name')
    dt = X.pick('doc_type', [None, 'free', 'owned', 'other type'])
    n = None; D2 = None
    if dt == 'free': n = X.node('dtd', {'DocumentType'}, owner=None, parent=None)
    elif dt == 'owned':
        D2 = X.doc('doc2'); n = X.node('dtd', {'DocumentType'}, owner=D2, parent=None)
    elif dt: n = X.node('dtd', ANYT - {'DocumentType', 'Document'}, owner=X.doc('doc2'), parent=None)
    args = [impl(X), ua, qa, some(X.h(n)) if n else NONE]
    bits = None
    if X.case.endswith('options'):
        bits = Bits(tuple(Sym(X.P, 'bool', 'option%d' % i) if i < 3 else 0 for i in range(8)))
        args.append(Adt(X.M.OPTS, 0, (bits,)))
    X.mi('DOMImplementation', X.case, 'Implementation', *args)
    errs = {}
    if dt == 'owned': errs['WrongDocument'] = 'C11'
    if dt == 'other type': errs['HierarchyRequest'] = 'C11'
    nm = None
    if u is not None and q is None: errs['Namespace'] = 'C11'
    elif q is not None:
        k, nm = new_ns(X, u, q) if u is not None else from_str(X, q)
        if k == 'err':
            for e in (nm if nm.__class__ is set else {nm}): errs[e] = 'C11'
    if not X.expect('C11', errs, atomic='C11'): return
    o = result_node(X, 'C11')
    if not is_new(X, 'C11', o, 'Document', '#document', None, None, nchildren=None): return
    kids = X.kids(o)
    if nm is None: X.ok('C11', not kids, 'no-root', 'a document without a root element was asked for')
    elif X.ok('C11', len(kids) == 1, 'root', 'the document must have its root element'):
        is_new(X, 'C11', X.d.obj(kids[0]), 'Element', nm, None, o, parent=o)
    X.ok('C11 C35', X.d.objopt(X.d.xfield(o, 'Document', 'i_document_type')) is n, 'doc-type', 'the document type of the new document')
    if n is not None:
        X.ok('C11', X.d.objopt(X.d.field(n, 'i_owner_document')) is o, 'doc-type-owner', 'the owner document of the document type')
        X.changed_only('C11', {(n, 'i_owner_document'), (n, 'i_parent_node')})
    b = X.P.bits(X.P.un(X.d.xfield(o, 'Document', 'i_options')).f[0])
    want = bits.b if bits else (0, 0, 1, 0, 0, 0, 0, 0)
    X.ok('C11 C23', all(X.P.same(x, y) or int_(x) == int_(y) and int_(x) is not None for x, y in zip(b, want)), 'options', 'the processing options of the new document')
    x = X.P.un(X.d.xfield(o, 'Document', 'i_xml_declaration'))
    X.ok('C11 C35', X.opt(x) is None, 'no-declaration', 'the new document has an XML declaration')

def int_(x):
    x = res(x)
    return int(x) if x.__class__ in (int, bool) else None

@sc('create_ext', ST, cases=['create_notation', 'create_entity', 'create_internal_entity'])
def _(X):
    D = X.doc('doc'); q = X.s('name')
    if X.case == 'create_internal_entity':
        a = X.s('value'); p = s = None; args = [X.ref(a)]
    else:
        a = None; p, pa = ostr(X, 'public'); s, sa = ostr(X, 'system'); args = [pa, sa]
    X.f('ext::dom_impl::' + X.case, X.h(D), X.ref(q), *args)
    k, nm = from_str(X, q)
    if not X.expect('C11', {nm: 'C11'} if k == 'err' else {}, atomic='C11'): return
    X.unchanged('C11', 'document')
    o = result_node(X, 'C11')
    ty = 'Notation' if X.case == 'create_notation' else 'Entity'
    if is_new(X, 'C11', o, ty, nm, a, D):
        optstr(X, 'C11 C35', X.d.xfield(o, ty, 'i_public_id'), p, 'public-id', 'the public identifier')
        optstr(X, 'C11 C35', X.d.xfield(o, ty, 'i_system_id'), s, 'system-id', 'the system identifier')
        if ty == 'Entity': optstr(X, 'C11 C35', X.d.xfield(o, ty, 'i_notation_name'), None, 'notation-name', 'the notation name')

# ---------------------------------------------------------------- features
@sc('has_feature', 'C25 C31')
def _(X):
    a, b = X.s('feature'), X.s('version')
    X.mi('DOMImplementation', 'has_feature', 'Implementation', impl(X), X.ref(a), X.ref(b))
    feature(X, a, b)
@sc('is_supported', 'C25 C06 C31')
def _(X):
    a, b = X.s('feature'), X.s('version')
    o = X.node('self', ANYT, owner='lazy')
    X.m('Node', 'is_supported', X.r(o), X.ref(a), X.ref(b))
    feature(X, a, b)
    X.unchanged('C06', 'observer')
def feature(X, a, b):
    if not X.no_panic('C25'): return
    P = X.P
    r = P.truth(X.val)
    low = lower(X, a)
    f = P.s_eq(low, 'core') or P.s_eq(low, 'xml')
    v = P.s_is_empty(b) or P.s_eq(b, '1.0') or P.s_eq(b, '2.0')
    X.ok('C25', r == (f and v), 'feature', lambda: 'reports %s for feature %s version %s' % (r, sstr(a), sstr(b)))

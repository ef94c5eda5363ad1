"""insert_before, append_child, replace_child, remove_child"""
from suite import *

def setup(X, self_doc):
    """the parent (`self`) and its document"""
    if self_doc:
        D = X.doc('self'); return D, D
    D = X.doc('doc')
    a = X.node('self', ANYT - {'Document'}, owner=D)
    return a, D

def new_child(X, a, D):
    """the new child, in every relation with the parent"""
    d = X.d
    rel = X.pick('new_child', ['unattached', 'of a dropped parent', 'child of self', 'child of another node', 'self', 'parent of self', 'grandparent of self', 'distant ancestor of self', 'parent of the owner element',
                               'of another document', 'without document'])
    if rel == 'self': return a, rel, None
    if rel in ('parent of self', 'grandparent of self', 'distant ancestor of self'):
        if a is D: raise Prune()
        # re-create the parent chain explicitly
        n = X.node('new', CONTAINER, owner=D)
        if rel == 'parent of self': chain(X, n, a)
        elif rel == 'distant ancestor of self':
            c = a
            for i in range(12 if X.tier == 'thorough' else 6):
                m = X.node('anc%d' % i, {'Element'}, owner=D); chain(X, m, c); c = m
            chain(X, n, c)
        else:
            m = X.node('mid', CONTAINER, owner=D)
            chain(X, n, m); chain(X, m, a)
        return n, rel, None
    if rel == 'parent of the owner element':
        if a is D or 'Attribute' not in d.typeset(a): raise Prune()
        d.set_type(a, 'Attribute')
        e = d.objopt(d.xfield(a, 'Attribute', 'i_owner_element'))
        if e is None: raise Prune()
        n = X.node('new', {'EntityReference'}, owner=D)
        chain(X, n, e)
        return n, rel, None
    if rel == 'unattached': return X.node('new', ANYT - {'Document'}, owner=D, parent=None), rel, None
    if rel == 'of a dropped parent':
        p = X.node('dropped', {'Element'}, owner=D, depth=0, parent=None); p.dead = True
        return X.node('new', CONTENT, owner=D, parent=p), rel, None
    if rel == 'child of self':
        n = X.node('new', CONTENT, owner=D, parent=a); n.node['parent'] = a
        d.link(a, [('gap',), n, ('gap',)])
        return n, rel, a
    if rel == 'child of another node':
        p = X.node('other', {'Element', 'EntityReference', 'Entity', 'DocumentFragment'}, owner=D, depth=0, up=1)
        n = X.node('new', CONTENT, owner=D, parent=p); n.node['parent'] = p
        d.link(p, [('gap',), n, ('gap',)])
        return n, rel, p
    if rel == 'of another document':
        E = X.doc('doc2')
        att = X.pick('attached', ['no', 'yes', 'document dropped'])
        if att != 'yes':
            E.dead = att != 'no'
            return X.node('new', ANYT - {'Document'}, owner=E, parent=None), rel, None
        p = X.node('other', {'Element'}, owner=E, depth=0, up=1)
        n = X.node('new', CONTENT, owner=E, parent=p); n.node['parent'] = p
        d.link(p, [('gap',), n, ('gap',)])
        return n, rel, p
    if rel == 'without document':
        t = X.pick('kind', ['Document', 'DocumentType'])
        return X.node('new', {t}, owner=None, parent=None), rel, None

CONTAINER = {'Element', 'EntityReference'}

def chain(X, p, c):
    """make c a child of p"""
    rc = c.c.v
    f = list(rc.c.v.f); f[X.M.f['i_parent_node']] = some(X.d.weak(p)); rc.c.v = Adt(X.M.NI, 0, tuple(f)); c.node['init'] = rc.c.v
    c.node['parent'] = p
    X.P.narrow(c.node['T'], {X.M.nt[t] for t in CONTENT})
    X.d.link(p, [('gap',), c, ('gap',)])

def allowed(X, a, n):
    """is the type of n allowed under the type of a? (partitioned only as far as needed)"""
    ta, tn = X.d.typeset(a), X.d.typeset(n)
    if all(y in ALLOWED.get(x, ()) for x in ta for y in tn): return True
    if not any(y in ALLOWED.get(x, ()) for x in ta for y in tn): return False
    x = X.d.type(a); tn = X.d.typeset(n)
    if tn <= ALLOWED.get(x, set()): return True
    if not (tn & ALLOWED.get(x, set())): return False
    return X.is_type(n, *sorted(ALLOWED[x]))

def insert_at(items, n, ref):
    items = [x for x in items if x is not n]
    if ref is None: return items + [n]
    i = items.index(ref)
    return items[:i] + [n] + items[i:]

def errors(X, a, n, rel, D, replaced=None):
    """conditions under which DOM rejects the insertion of n under a"""
    e = {}
    if not allowed(X, a, n): e['HierarchyRequest'] = 'C01'
    if rel in ('self', 'parent of self', 'grandparent of self', 'distant ancestor of self', 'parent of the owner element'): e['HierarchyRequest'] = e.get('HierarchyRequest', '') + ' C02'
    if rel in ('of another document',): e['WrongDocument'] = 'C03'
    return e

def second_element(X, a, n, e, excl=()):
    if a is X.docself and X.d.typeset(n) & {'Element'} and not e.get('HierarchyRequest'):
        if X.is_type(n, 'Element') and X.has_element(X.init_handles(a), excluding=(n,) + tuple(excl)):
            e['HierarchyRequest'] = e.get('HierarchyRequest', '') + ' C02'

def init_handles(X, o): return X.d.init_kids(o)
def _ih(self, o): return self.d.init_kids(o)
import suite
suite.X.init_handles = _ih

def blame(X, a, n):
    """properties (besides C04) that a failure breaks where nothing is wrong"""
    tn = X.d.typeset(n)
    def f(code):
        if code == 'WrongDocument': return ' C03'
        if code != 'HierarchyRequest': return ''
        return ' C01' + (' C02' if a is X.docself and tn == {'Element'} else '')
    return f

def post(X, a, n, D, oldp, want):
    """effects of a successful insertion"""
    C = 'C04'
    X.same_kids(C, a, want, 'children')
    X.link(C, n, 'i_parent_node', a, 'parent-link')
    if oldp is not None and oldp is not a:
        X.same_kids(C, oldp, [x for x in X.init_kids(oldp) if x is not n], 'old-parent-children')
    X.link(C + ' C03', n, 'i_owner_document', D, 'owner-document')
    X.changed_only(C, {(a, 'i_child_nodes'), (n, 'i_parent_node'), (n, 'i_owner_document')} | ({(oldp, 'i_child_nodes')} if oldp else set()))

TP = 'C01 C02 C03 C04 C05 C07 C31'

def insert(X, append):
    self_doc = X.case == 'Document'
    a, D = setup(X, self_doc)
    X.docself = D if self_doc else None
    n, rel, oldp = new_child(X, a, D)
    if append: refk, ref = 'none', None
    else:
        refk = X.pick('ref_child', ['none', 'child', 'stranger', 'self'] + (['new_child', 'previous', 'next'] if oldp is a else []))
        if refk == 'none': ref = None
        elif refk == 'stranger': ref = X.node('r', ANYT - {'Document'}, owner=D, depth=0, up=1)
        elif refk == 'self': ref = a
        elif refk == 'new_child': ref = n
        else:
            ref = X.node('r', CONTENT, owner=D, parent=a, depth=0); ref.node['parent'] = a
            if oldp is a:
                if refk == 'child': X.d.link(a, [('gap',), n, ('gap',), ref, ('gap',)])
                elif refk == 'previous': X.d.link(a, [('gap',), ref, ('gap',), n, ('gap',)])
                else: X.d.link(a, [('gap',), n, ref, ('gap',)])
            else: X.d.link(a, [('gap',), ref, ('gap',)])
    if append: X.m('Node', 'append_child', X.r(a), X.h(n))
    else: X.m('Node', 'insert_before', X.r(a), X.h(n), some(X.h(ref)) if ref else NONE)
    bl = blame(X, a, n); e = errors(X, a, n, rel, D)
    if refk in ('stranger', 'self'): e['NotFound'] = 'C04'
    second_element(X, a, n, e)
    if X.expect('C04', e, blame=bl):
        kids = X.init_kids(a)
        want = kids if ref is n and oldp is a else insert_at(kids, n, ref)
        post(X, a, n, D, oldp, want)
        k, v = X.result()
        X.ok('C04', X.d.obj(v) is n, 'returns-new-child', 'the result is not the inserted node')

CASES = ['Document', 'other']

@sc('append_child', TP, cases=CASES)
def _(X): insert(X, True)

@sc('insert_before', TP, cases=CASES)
def _(X): insert(X, False)

@sc('replace_child', TP, cases=CASES)
def _(X):
    self_doc = X.case == 'Document'
    a, D = setup(X, self_doc)
    X.docself = D if self_doc else None
    n, rel, oldp = new_child(X, a, D)
    ok_ = X.pick('old_child', ['child', 'stranger', 'self'] + (['new_child', 'previous', 'adjacent previous', 'adjacent next'] if oldp is a else []))
    if ok_ == 'stranger': o = X.node('old', ANYT - {'Document'}, owner=D, depth=0, up=1)
    elif ok_ == 'self': o = a
    elif ok_ == 'new_child': o = n
    else:
        o = X.node('old', CONTENT, owner=D, parent=a, depth=0); o.node['parent'] = a
        if oldp is a:
            lay = {'child': [('gap',), n, ('gap',), o, ('gap',)], 'previous': [('gap',), o, ('gap',), n, ('gap',)],
                   'adjacent previous': [('gap',), o, n, ('gap',)], 'adjacent next': [('gap',), n, o, ('gap',)]}[ok_]
            X.d.link(a, lay)
        else: X.d.link(a, [('gap',), o, ('gap',)])
    X.m('Node', 'replace_child', X.r(a), X.h(n), X.h(o))
    bl = blame(X, a, n); e = errors(X, a, n, rel, D)
    if ok_ in ('stranger', 'self'): e['NotFound'] = 'C04'
    second_element(X, a, n, e, excl=(o,))
    if X.expect('C04', e, blame=bl):
        kids = X.init_kids(a)
        if o is n: want = kids
        else:
            want = [x for x in kids if x is not n]
            want[want.index(o)] = n
        C = 'C04'
        X.same_kids(C, a, want, 'children')
        X.link(C, n, 'i_parent_node', a, 'parent-link')
        if o is not n: X.link(C, o, 'i_parent_node', None, 'replaced-parent-link')
        if oldp is not None and oldp is not a: X.same_kids(C, oldp, [x for x in X.init_kids(oldp) if x is not n], 'old-parent-children')
        X.link('C04 C03', n, 'i_owner_document', D, 'owner-document')
        X.changed_only(C, {(a, 'i_child_nodes'), (n, 'i_parent_node'), (n, 'i_owner_document'), (o, 'i_parent_node')} | ({(oldp, 'i_child_nodes')} if oldp else set()))
        k, v = X.result()
        X.ok('C04', X.d.obj(v) is o, 'returns-replaced-child', 'the result is not the replaced node')

@sc('remove_child', 'C04 C05 C07 C31', cases=CASES)
def _(X):
    a, D = setup(X, X.case == 'Document')
    k = X.pick('old_child', ['child', 'stranger', 'self', 'child of another node'])
    if k == 'stranger': o = X.node('old', ANYT, owner=D if D is not a else 'lazy', depth=0, up=1) if D is not a else X.node('old', ANYT - {'Document'}, owner=D, depth=0, up=1)
    elif k == 'self': o = a
    elif k == 'child of another node':
        p = X.node('other', {'Element'}, owner=D, depth=0)
        o = X.node('old', CONTENT, owner=D, parent=p, depth=0); o.node['parent'] = p
        X.d.link(p, [('gap',), o, ('gap',)])
    else:
        o = X.node('old', CONTENT, owner=D, parent=a, depth=0); o.node['parent'] = a
        X.d.link(a, [('gap',), o, ('gap',)])
    X.m('Node', 'remove_child', X.r(a), X.h(o))
    if X.expect('C04', {} if k == 'child' else {'NotFound': 'C04'}):
        X.same_kids('C04', a, [x for x in X.init_kids(a) if x is not o], 'children')
        X.link('C04', o, 'i_parent_node', None, 'parent-link')
        X.changed_only('C04', {(a, 'i_child_nodes'), (o, 'i_parent_node')})
        kk, v = X.result()
        X.ok('C04', X.d.obj(v) is o, 'returns-removed-child', 'the result is not the removed node')

"""character data: substrings, edits, splitting text"""
from suite import *

CD = {'CData', 'Comment', 'Text'}

def vopt(X, o, init=False):
    """value of the node: None or a string"""
    return X.opt((X.d.init_field if init else X.d.field)(o, 'i_value'))

def data_node(X, types=CD, parent=None, **kw):
    return X.node('self', types, owner=X.doc('doc'), parent=parent, **kw)

def within(X, v, offset, count):
    """(valid, end): is offset..min(offset+count, len) a range of whole characters of v?"""
    P = X.P; n = str_len(v)
    if not P.ge0(ladd(n, offset, -1), 'offset <= length'): return False, None
    left = ladd(n, offset, -1)
    end = ladd(offset, count) if P.ge0(ladd(left, count, -1), 'offset+count <= length') else n
    if not P.boundary(v, offset) or not P.boundary(v, end): return False, end
    return True, end

def zero(X, n): return X.P.eq0(n) if n.__class__ is Lin else n == 0

@sc('substring_data', 'C16 C06 C31')
def _(X):
    o = data_node(X)
    off, cnt = X.usize('offset'), X.usize('count')
    X.m('CharacterData', 'substring_data', X.r(o), off, cnt)
    v = vopt(X, o, True)
    if not X.no_panic('C16'): return
    X.unchanged('C06', 'observer')
    k, r = X.result()
    if v is None: ok_, end = False, None
    else: ok_, end = within(X, v, off, cnt)
    if zero(X, cnt):
        X.ok('C16', k == 'ok' and X.same_str(r, '') or k == 'err' and not ok_ and r == 'IndexSize', 'empty-count', 'zero code units do not give the empty string')
        return
    if X.expect('C16', {} if ok_ else {'IndexSize': 'C16'}):
        X.ok('C16', X.same_str(r, X.P.sub(v, off, end)), 'substring', lambda: 'returns %s, must be %s' % (vstr(X.P, r), sstr(X.P.sub(v, off, end))))

def edited(X, o, want, key):
    got = vopt(X, o)
    X.ok('C16', got is not None and X.same_str(got, want), key, lambda: 'data is %s, must be %s' % ('None' if got is None else sstr(got), sstr(want)))
    X.changed_only('C16', {(o, 'i_value')})

@sc('append_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    a = X.s('new')
    X.m('CharacterData', 'append_data', X.r(o), X.ref(a))
    if not X.expect('C16', {}): return
    v = vopt(X, o, True)
    if X.P.s_is_empty(a):
        got = vopt(X, o)
        X.ok('C16', (v is None and (got is None or X.same_str(got, ''))) or got is not None and v is not None and X.same_str(got, v), 'append-empty', 'appending nothing changes the data')
        X.changed_only('C16', {(o, 'i_value')}); return
    edited(X, o, cat((v, a)) if v is not None else a, 'appended')

@sc('insert_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    off, a = X.usize('offset'), X.s('new')
    X.m('CharacterData', 'insert_data', X.r(o), off, X.ref(a))
    edit(X, o, off, 0, a)

def edit(X, o, off, cnt, a):
    v = vopt(X, o, True)
    if not X.no_panic('C16'): return
    if v is None:
        ok_ = zero(X, off) and zero(X, cnt)
        want = a
    else:
        ok_, end = within(X, v, off, cnt)
        want = cat((X.P.sub(v, 0, off), a, X.P.sub(v, end, str_len(v)))) if ok_ else None
    nothing = zero(X, cnt) and X.P.s_is_empty(a)
    k, r = X.result()
    if not ok_ and nothing:
        # an edit without effect outside the data: an error or nothing
        X.ok('C16', k == 'ok' or r == 'IndexSize', 'no-op-error', 'an edit without effect fails with another error')
        X.unchanged('C05 C16' if k == 'err' else 'C16', 'no-op'); return
    if not X.expect('C16', {} if ok_ else {'IndexSize': 'C16'}): return
    if nothing and v is None:
        got = vopt(X, o)
        X.ok('C16', got is None or X.same_str(got, ''), 'no-op', 'an edit without effect sets data'); X.changed_only('C16', {(o, 'i_value')}); return
    edited(X, o, want, 'edited')

@sc('delete_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    off, cnt = X.usize('offset'), X.usize('count')
    X.m('CharacterData', 'delete_data', X.r(o), off, cnt)
    edit(X, o, off, cnt, '')

@sc('replace_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    off, cnt, a = X.usize('offset'), X.usize('count'), X.s('new')
    X.m('CharacterData', 'replace_data', X.r(o), off, cnt, X.ref(a))
    edit(X, o, off, cnt, a)

# ---------------------------------------------------------------- reading and setting the data
ESC = '&\'><"'
@sc('data', 'C16 C06 C31', cases=['CData', 'Comment', 'Text'])
def _(X):
    o = data_node(X, {X.case})
    X.m('CharacterData', 'data', X.r(o))
    if not X.no_panic('C16'): return
    X.unchanged('C06', 'observer')
    v = vopt(X, o, True)
    got = X.opt(X.val)
    if v is None: X.ok('C16', got is None, 'no-data', 'a node without data reports some'); return
    if not X.ok('C16', got is not None, 'data', 'a node with data reports none'): return
    if X.case == 'CData': X.ok('C16', X.same_str(got, v), 'data', lambda: 'data is %s, must be the stored string' % sstr(got))

@sc('set_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    a = X.s('new')
    X.m('CharacterData', 'set_data', X.r(o), X.ref(a))
    if X.expect('C16', {}): edited(X, o, a, 'set')

@sc('unset_data', 'C16 C05 C31')
def _(X):
    o = data_node(X)
    X.m('CharacterData', 'unset_data', X.r(o))
    if X.expect('C16', {}):
        X.ok('C16', vopt(X, o) is None, 'unset', 'data remains'); X.changed_only('C16', {(o, 'i_value')})

# ---------------------------------------------------------------- split
def fresh(X, o): return not o.node
def nval(X, o): return res(res(o.c.v).c.v)
def nfield(X, o, f): return nval(X, o).f[X.M.f[f]]

@sc('split', 'C29 C04 C05 C31', cases=['no parent', 'in a parent', 'in an attribute'], K=2, thorough=dict(K=3))
def _(X):
    D = X.doc('doc')
    if X.case == 'no parent':
        o = X.node('self', {'Text', 'CData'}, owner=D, parent=None); p = None
    else:
        at = X.case == 'in an attribute'
        p = X.node('parent', {'Attribute'} if at else {'Element', 'EntityReference', 'Entity', 'DocumentFragment'}, owner=D, parent=None)
        o = X.node('self', {'Text'} if at else {'Text', 'CData'}, owner=D, parent=p)
        o.node['parent'] = p
        X.d.link(p, [('gap',), o, ('gap',)])
    off = X.usize('offset')
    X.m('Text', 'split', X.r(o), off)
    if not X.no_panic('C29'): return
    P = X.P
    v = vopt(X, o, True)
    k, r = X.result()
    t = X.d.type(o)
    v0 = v if v is not None else ''
    n = str_len(v0)
    inside = P.ge0(ladd(n, off, -1), 'offset <= length')
    if inside and v is not None and not P.boundary(v0, off):
        X.expect('C29', {'IndexSize': 'C29'}); return
    if not inside and k == 'err':
        X.expect('C29', {'IndexSize': 'C29'}); return
    if not X.expect('C29', {}): return
    head, tail = (P.sub(v0, 0, off), P.sub(v0, off, n)) if inside else (v0, '')
    new = X.d.obj(r)
    if not X.ok('C29', fresh(X, new), 'new-node', 'the result is not a new node'): return
    got = vopt(X, o)
    X.ok('C29', (got is None and v is None) or got is not None and X.same_str(got, head), 'head', lambda: 'the node keeps %s, must be %s' % ('None' if got is None else sstr(got), sstr(head)))
    nv = X.opt(nfield(X, new, 'i_value'))
    X.ok('C29', (X.same_str('', tail) and nv is None) or nv is not None and X.same_str(nv, tail), 'tail', lambda: 'the new node holds %s, must be %s' % ('None' if nv is None else sstr(nv), sstr(tail)))
    X.ok('C29', P.variant(nfield(X, new, 'i_node_type')) == X.M.nt[t], 'type', 'the new node has another type')
    X.ok('C29', X.d.objopt(nfield(X, new, 'i_owner_document')) is D, 'owner', 'the new node belongs to another document')
    X.ok('C29 C04', X.d.objopt(nfield(X, new, 'i_parent_node')) is p, 'parent', 'the parent of the new node')
    if p is not None:
        kids = []
        for c in X.init_kids(p):
            kids.append(c)
            if c is o: kids.append(new)
        X.same_kids('C29 C04', p, kids, 'siblings')
        X.changed_only('C29', {(o, 'i_value'), (p, 'i_child_nodes')})
    else: X.changed_only('C29', {(o, 'i_value')})

@sc('split/not text', 'C29 C05 C31')
def _(X):
    o = X.node('self', ANYT - {'Text', 'CData', 'Document'}, owner=X.doc('doc'), parent=None)
    off = X.usize('offset')
    X.m('Text', 'split', X.r(o), off)
    if not X.no_panic('C29'): return
    k, r = X.result()
    X.ok('C29', k == 'err', 'must-fail', 'splitting a node that is not text succeeds')
    if k == 'err': X.unchanged('C05', 'failed')

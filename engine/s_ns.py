"""namespace look-ups"""
from suite import *
from s_create import optstr
from s_attr import xmap, option

OBS = ' C06 C31'
def observed(X, props):
    if not X.no_panic(props): return False
    X.unchanged('C06', 'observer')
    return True

def prefix_arg(X):
    return X.d.opt_str('prefix')
def pref(X, p):
    """the Option<&str> argument"""
    return Sym(X.P, OPTION, 'prefix', frozenset({0, 1}), mk=None)

def enabled(X, o):
    D = X.d.objopt(X.d.init_field(o, 'i_owner_document'))
    return D is not None and option(X, D, 2)

def own(X, o, p):
    """the namespace declared on o itself for prefix p (Option value)"""
    if not enabled(X, o) or not X.is_type(o, 'Element'): return None
    i, m = X.P.map_lookup(xmap(X, o, 'Element', 'i_namespaces', init=True), p)
    return None if i is None else m.e[i][1]

def mkns(P, o, args): return P.dom.opt_str('%s.resolve_namespace()' % o.name)

def resolve(X, o, p):
    s = X.summary('Namespaced', 'resolve_namespace', o, p)
    if s is not None: return X.opt(s)
    if not enabled(X, o): return None
    v = own(X, o, p)
    if v is not None: return v
    po = X.d.objopt(X.d.init_field(o, 'i_parent_node'))
    return None if po is None else resolve(X, po, p)

PREFIXCASES = ['default', 'prefix']
def mkprefix(X):
    if X.case == 'default': return NONE
    return some(X.ref(X.s('prefix')))

@sc('contains_mapping', 'C24 C23' + OBS, cases=PREFIXCASES)
def _(X):
    o = X.node('self'); p = mkprefix(X)
    X.m('Namespaced', 'contains_mapping', X.r(o), p)
    if not observed(X, 'C24'): return
    got = X.P.truth(X.val); want = own(X, o, p) is not None
    X.ok('C24 C23', got == want, 'contains', lambda: 'answers %s, must be %s' % (got, want))

@sc('get_namespace', 'C24 C23' + OBS, cases=PREFIXCASES)
def _(X):
    o = X.node('self'); p = mkprefix(X)
    X.m('Namespaced', 'get_namespace', X.r(o), p)
    if not observed(X, 'C24'): return
    optstr(X, 'C24 C23', X.val, own(X, o, p), 'namespace', 'the namespace')

@sc('resolve_namespace', 'C24 C23' + OBS, cases=PREFIXCASES, UP=3, opq=inductive('Namespaced', 'resolve_namespace', mkns))
def _(X):
    o = X.node('self'); p = mkprefix(X)
    X.top = o
    X.m('Namespaced', 'resolve_namespace', X.r(o), p)
    if not observed(X, 'C24'): return
    optstr(X, 'C24 C23', X.val, resolve(X, o, p), 'namespace', 'the namespace in scope')

# ---------------------------------------------------------------- prefixes
def nsp(X):
    p = [a for a in X.prog.adts if X.prog.adts[a]['local'] and short(a) == 'NamespacePrefix']
    if len(p) != 1: raise Anchor('NamespacePrefix')
    return p[0]
def prefix_of(X, v):
    """None | 'default' | string of a NamespacePrefix value"""
    v = X.P.un(v); i = X.P.variant(v); v = res(v)
    n = X.prog.adts[v.p]['v'][i]['n']
    return None if n == 'None' else 'default' if n == 'Default' else ('some', v.f[0])

def mapped(X, o, u):
    """does o declare namespace u?  the keys (Option) that map to it; partitioned"""
    if not enabled(X, o) or not X.is_type(o, 'Element'): return []
    m = X.P.map_flat(xmap(X, o, 'Element', 'i_namespaces', init=True))
    out = [k for k, v in m.e if X.P.s_eq(v, u)]
    while True:
        m = X.P.map_flat(m); g = m.g
        if g is None: break
        n = len(m.e)
        found = stdm.seg_search(X.P, It('map', MapV((), g), None), lambda t: X.P.s_eq(t.f[1], u), True)[0]
        m = X.P.map_flat(m)
        if not found: break
        out += [k for k, v in m.e[n:] if X.P.s_eq(v, u)]
    return out

def among(X, got, keys):
    if not keys: return got is None
    for k in keys:
        z = X.opt(k)
        if (got == 'default' and z is None) or (got.__class__ is tuple and z is not None and X.same_str(got[1], z)): return True
    return False

def mkpr(P, o, args):
    A = P.prog.adts
    p = [a for a in A if A[a]['local'] and short(a) == 'NamespacePrefix'][0]
    return Sym(P, p, '%s.resolve_prefix()' % o.name, frozenset(range(len(A[p]['v']))), mk=lambda path, vi, i: SSym(path, '%s.prefix' % o.name))

@sc('get_prefix', 'C24 C23' + OBS)
def _(X):
    o = X.node('self'); u = X.s('uri')
    X.m('Namespaced', 'get_prefix', X.r(o), X.ref(u))
    if not observed(X, 'C24'): return
    got = prefix_of(X, X.val); ks = mapped(X, o, u)
    X.ok('C24 C23', among(X, got, ks), 'prefix', lambda: 'the prefix is %s, the declared ones are %s' % (got, [vstr(X.P, k) for k in ks]))

@sc('contains_mapped_namespace', 'C24 C23' + OBS)
def _(X):
    o = X.node('self'); u = X.s('uri')
    X.m('Namespaced', 'contains_mapped_namespace', X.r(o), X.ref(u))
    if not observed(X, 'C24'): return
    got = X.P.truth(X.val); ks = mapped(X, o, u)
    X.ok('C24 C23', got == bool(ks), 'contains', lambda: 'answers %s, the declared prefixes are %s' % (got, [vstr(X.P, k) for k in ks]))

@sc('resolve_prefix', 'C24 C23' + OBS, UP=3, opq=inductive('Namespaced', 'resolve_prefix', mkpr))
def _(X):
    o = X.node('self'); u = X.s('uri')
    X.top = o
    X.m('Namespaced', 'resolve_prefix', X.r(o), X.ref(u))
    if not observed(X, 'C24'): return
    n = o
    while n is not None:
        s = X.summary('Namespaced', 'resolve_prefix', n, u)
        if s is not None:
            X.ok('C24 C23', X.P.same(X.val, s) or X.P.veq(X.val, s), 'inherited', 'the result is not that of the parent'); return
        if not enabled(X, n): break
        ks = mapped(X, n, u)
        if ks:
            got = prefix_of(X, X.val)
            X.ok('C24 C23', among(X, got, ks), 'nearest', lambda: 'the prefix is %s, the nearest declared ones are %s' % (got, [vstr(X.P, k) for k in ks])); return
        n = X.d.objopt(X.d.init_field(n, 'i_parent_node'))
    X.ok('C24 C23', prefix_of(X, X.val) is None, 'none', lambda: 'the prefix is %s without a declaration' % (prefix_of(X, X.val),))

@sc('namespace_prefix', 'C24 C31', cases=['is_none', 'is_default', 'is_some', 'some', 'new_some'])
def _(X):
    p = nsp(X)
    v = Sym(X.P, p, 'prefix', frozenset(range(len(X.prog.adts[p]['v']))), mk=lambda path, vi, i: SSym(path, 'prefix'))
    if X.case == 'new_some':
        s = X.s('prefix')
        k = [k for k in X.prog.B if k.endswith('NamespacePrefix::new_some')]
        if len(k) != 1: raise Anchor('NamespacePrefix::new_some')
        X.op(k[0], s)
        if X.no_panic('C24'):
            g = prefix_of(X, X.val); X.ok('C24', g.__class__ is tuple and X.same_str(g[1], s), 'new', 'the prefix')
        return
    X.f('NamespacePrefix::' + X.case, X.ref(v))
    if not X.no_panic('C24'): return
    w = prefix_of(X, v)
    if X.case == 'some': optstr(X, 'C24', X.val, w[1] if w.__class__ is tuple else None, 'some', 'the prefix')
    else:
        got = X.P.truth(X.val)
        X.ok('C24', got == {'is_none': w is None, 'is_default': w == 'default', 'is_some': w.__class__ is tuple}[X.case], X.case, lambda: 'answers %s' % got)

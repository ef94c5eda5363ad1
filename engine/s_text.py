"""names, character classes, options, declarations"""
from suite import *
from s_create import optstr
from s_attr import parts, qname, new_ns, XMLNS, XMLURI
import itertools

def iv(*xs): return [(x, x) if x.__class__ is int else x for x in xs]
COLON = (0x3A, 0x3A)
START = [COLON] + NAME_START
CHARCLASS = {
    'is_xml_name_start_char': START,
    'is_xml_name_char': [COLON] + NAME_CHAR,
    'is_xml_10_char': iv(9, 10, 13, (0x20, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)),
    'is_xml_11_char': iv((1, 0xD7FF), (0xE000, 0xFFFD), (0x10000, 0x10FFFF)),
    'is_xml_10_restricted_char': iv(0x26, 0x27, 0x3E, 0x3C, 0x22),
    'is_xml_11_restricted_char': iv((1, 8), (0xB, 0xC), (0xE, 0x1F), (0x7F, 0x84), (0x86, 0x9F)),
    'is_xml_space': iv(9, 10, 13, 32),
}
def ivs(c): return ', '.join('U+%04X' % a if a == b else 'U+%04X..U+%04X' % (a, b) for a, b in c.iv[:4])

@sc('char_class', 'C14 C31', cases=sorted(CHARCLASS))
def _(X):
    c = CSym(X.P, 'c')
    X.fp('text::' + X.case, c)
    if not X.no_panic('C14'): return
    got = X.P.truth(X.val)
    X.ok('C14', got == X.P.cin(c, CHARCLASS[X.case], 'specified'), X.case, lambda: 'answers %s for %s' % (got, ivs(c)))

def all_in(X, items, spec):
    """are all these characters in the class? (partitioned)"""
    return not stdm.seg_search(X.P, It('items', tuple(items)), lambda c: not X.P.cin(c, spec), True)[0]

def is_name(X, s):
    f, c, rest = X.P.first(X.P.chars(s))
    if not f: return False
    return X.P.cin(c, START) and all_in(X, rest, CHARCLASS['is_xml_name_char'])

@sc('name_class', 'C14 C13 C31', cases=['is_xml_name', 'is_xml_nmtoken'], K=2, thorough=dict(K=3))
def _(X):
    s = X.s('s')
    X.fp('text::' + X.case, X.ref(s))
    if not X.no_panic('C14'): return
    got = X.P.truth(X.val)
    if X.case == 'is_xml_name': want = is_name(X, s)
    else: want = (not X.P.s_is_empty(s)) and all_in(X, X.P.chars(s), CHARCLASS['is_xml_name_char'])
    X.ok('C14 C13', got == want, X.case, lambda: 'answers %s for %s, must be %s' % (got, vstr(X.P, s), want))

ESC = {0x26: '&#38;', 0x27: '&#39;', 0x3E: '&#62;', 0x3C: '&#60;', 0x22: '&#34;'}
def escaped(X, s):
    out = []; rest = X.P.chars(s)
    while True:
        f, c, rest = X.P.first(rest)
        if not f: return cat(tuple(out))
        for k, t in ESC.items():
            if X.P.cin(c, [(k, k)], 'special'): out.append(t); break
        else: out.append(cat((Run((c,)),)))

KEEPESC = ('text::escape',)
@sc('escape', 'C14 C31', cases=['Comment', 'Text', 'CData', 'ProcessingInstruction'], K=2, thorough=dict(K=3), keep=KEEPESC)
def _(X):
    """what character data reports with the markup characters escaped"""
    o = X.node('self', {X.case})
    X.m('ProcessingInstruction' if X.case == 'ProcessingInstruction' else 'CharacterData', 'data', X.r(o))
    if not X.no_panic('C14'): return
    v = X.opt(X.val)
    w = X.opt(X.P.dom.init_field(o, 'i_value'))
    if not X.ok('C14', (v is None) == (w is None), 'presence', 'data is present exactly if there is a value'): return
    if v is None: return
    want = escaped(X, w) if X.case in ('Comment', 'Text') else w
    X.ok('C14', X.same_str(v, want), 'text', lambda: 'reports %s, must be %s' % (vstr(X.P, v), vstr(X.P, want)))

FS = ('Name as std::str::FromStr>::from_str',)
def NAMEPARTS(env):
    try: return {env.prog.fn('text::is_xml_name'): None}
    except EngineError: return {}
def valid(X, p):
    if res(p).__class__ is str: return name_outcome(res(p)) == 'part' if ':' not in res(p) else False
    try: k = X.prog.fn('text::is_xml_name')
    except EngineError as e: raise Moved(str(e))
    return X.P.truth(X.P.call(k, [X.ref(p)]))

def parse_spec(X, s):
    """('ok', prefix, local) or ('err', code); s: list of parts between colons"""
    for p in s:
        if X.P.s_is_empty(p): return 'err', {'Syntax'}
    if len(s) > 2: return 'err', {'Syntax'}
    bad = [p for p in s if not valid(X, p)]
    if bad: return 'err', {'InvalidCharacter'}
    return ('ok', None, s[0]) if len(s) == 1 else ('ok', s[0], s[1])

@sc('name_from_str', 'C13 C31', cases=['no colon', 'one colon', 'two colons', 'more'], keep=FS, opq=NAMEPARTS)
def _(X):
    n = {'no colon': 1, 'one colon': 2, 'two colons': 3, 'more': 4}[X.case]
    ps = []
    for i in range(n):
        x = X.s('part%d' % i); x.no = frozenset(':'); ps.append(x)
    if X.case == 'more': ps[-1].no = frozenset()
    a = list(ps[:1])
    for p in ps[1:]: a += [':', p]
    s = cat(tuple(a))
    X.mi('FromStr', 'from_str', 'Name', X.ref(s))
    if not X.no_panic('C13'): return
    k, v = X.result()
    w = parse_spec(X, ps)
    if w[0] == 'err':
        # a string with an empty part and one with a bad character is rejected with either error
        X.ok('C13', k == 'err' and (v in w[1] or (len(ps) == 2 and v == 'InvalidCharacter' and any(not valid(X, p) for p in ps))), 'rejected', lambda: '%s for %s, must fail with %s' % (k if k == 'ok' else v, sstr(s), '|'.join(w[1])))
        return
    if not X.ok('C13', k == 'ok', 'accepted', lambda: 'rejects the name %s with %s' % (sstr(s), v)): return
    ns, p, l = parts(X, v)
    X.ok('C13', ns is None, 'no-namespace', 'a parsed name has a namespace')
    X.ok('C13', X.same_str(l, w[2]), 'local', lambda: 'the local name is %s, must be %s' % (vstr(X.P, l), sstr(w[2])))
    X.ok('C13', (p is None) == (w[1] is None) and (p is None or X.same_str(p, w[1])), 'prefix', lambda: 'the prefix is %s, must be %s' % (p and vstr(X.P, p), w[1]))

@sc('name_try_from', 'C13 C31')
def _(X):
    v = Opq(X.P, 'bytes')
    X.mi('TryFrom', 'try_from', 'Name', X.ref(v))
    if not X.no_panic('C13'): return
    u = X.P.memo.get(('utf8', X.P.key(v)))
    if u is None: X.P.imp('the bytes are not read as UTF-8'); return
    k, r = X.result()
    if X.P.variant(u) == 1: X.ok('C13', k == 'err' and r in ('InvalidCharacter', 'Syntax'), 'not-utf8', lambda: '%s for bytes that are not UTF-8' % k); return
    w = X.P.un(X.P.call(X.prog.find('FromStr', 'from_str', 'Name'), [X.ref(res(u).f[0])]))
    X.ok('C13', X.P.same(X.val, w), 'bytes', lambda: 'the result is %s, must be that of the string' % vstr(X.P, X.val))

@sc('name_new_ns', 'C13 C31')
def _(X):
    u, q = X.s('uri'), X.s('name')
    X.f('Name::new_ns', X.ref(u), X.ref(q))
    if not X.no_panic('C13'): return
    k, v = X.result()
    P = X.P
    pk = P.call(X.prog.find('FromStr', 'from_str', 'Name'), [X.ref(q)])
    pv = P.variant(pk); pk = res(pk)
    errs = set()
    if pv == 1: errs.add(X.M.errn[P.variant(P.un(pk.f[0]))])
    else:
        ns, p, l = parts(X, pk.f[0])
        if P.s_is_empty(u): errs.add('Syntax')
        for z in (p, l):
            if z is None: continue
            if P.s_eq(z, 'xml') and not P.s_eq(u, XMLURI): errs.add('Namespace')
            if P.s_eq(z, 'xmlns') and not P.s_eq(u, XMLNS): errs.add('Namespace')
    if errs:
        X.ok('C13', k == 'err' and v in errs, 'rejected', lambda: '%s, must fail with %s' % (k if k == 'ok' else v, '|'.join(errs)))
        return
    if not X.ok('C13', k == 'ok', 'accepted', lambda: 'fails with %s' % v): return
    n, p1, l1 = parts(X, v)
    X.ok('C13', n is not None and X.same_str(n, u), 'namespace', 'the namespace is not the given one')
    X.ok('C13', X.same_str(l1, l) and (p1 is None) == (p is None) and (p is None or X.same_str(p, p1)), 'name', 'the name is not the given one')

@sc('name_display', 'C13 C15 C06 C31')
def _(X):
    n = X.d.name('name')
    f = X.shows(n, 'Name')
    if not X.no_panic('C13'): return
    s = cat(f.out)
    X.ok('C13 C15', X.same_str(s, qname(X, n)), 'display', lambda: 'displays %s, must be %s' % (vstr(X.P, s), sstr(qname(X, n))))

@sc('name_tests', 'C13 C06 C31', cases=['is_namespace_attribute', 'is_id_attribute', 'namespace_uri', 'local_name', 'prefix'])
def _(X):
    from s_attr import is_ns_attr
    n = X.d.name('name')
    lax = X.bool('lax')
    args = [X.ref(n)] + ([lax] if X.case == 'is_id_attribute' else [])
    X.f('Name::' + X.case, *args)
    if not X.no_panic('C13'): return
    ns, p, l = parts(X, n)
    P = X.P
    if X.case == 'is_namespace_attribute':
        got = P.truth(X.val); want = is_ns_attr(X, n)
    elif X.case == 'is_id_attribute':
        got = P.truth(X.val)
        want = P.s_eq(l, 'id') and (P.truth(lax) or (ns is not None and P.s_eq(ns, XMLURI)) or (p is not None and P.s_eq(p, 'xml')))
    else:
        w = {'namespace_uri': ns, 'prefix': p, 'local_name': l}[X.case]
        if X.case == 'local_name': X.ok('C13', X.same_str(X.val, l), 'part', 'the local name')
        else: optstr(X, 'C13', X.val, w, 'part', X.case)
        return
    X.ok('C13', got == want, X.case, lambda: 'answers %s, must be %s' % (got, want))

@sc('name_for', 'C13 C31', cases=['for_xml_id', 'for_namespace/none', 'for_namespace/some'])
def _(X):
    P = X.P
    if X.case == 'for_xml_id':
        X.f('Name::for_xml_id'); want = (XMLURI, 'xml', 'id')
    elif X.case.endswith('none'):
        X.f('Name::for_namespace', NONE); want = (XMLNS, None, 'xmlns')
    else:
        p = X.s('prefix'); p.nonempty = True
        X.f('Name::for_namespace', some(X.ref(p))); want = (XMLNS, 'xmlns', p)
    if not X.no_panic('C13'): return
    ns, p, l = parts(X, X.val)
    eq = lambda a, b: (a is None) == (b is None) and (a is None or X.same_str(a, b))
    X.ok('C13', eq(ns, want[0]) and eq(p, want[1]) and eq(l, want[2]), 'name', lambda: 'the name is %s' % vstr(P, X.val))

# ---------------------------------------------------------------- processing options
OPT = ['assume_ids', 'parse_entities', 'add_namespaces']
def opts(X, name='options'):
    b = [Sym(X.P, 'bool', '%s.%s' % (name, o)) for o in OPT]
    return options_value(X.P, X.M, b), b

def flags(X, o):
    """what the three queries report of options o"""
    return tuple(X.P.truth(X.P.call(X.prog.fn('ProcessingOptions::has_' + n), [X.ref(o)])) for n in OPT)

@sc('options_query', 'C22 C31', cases=['has_none'] + ['has_' + o for o in OPT])
def _(X):
    o, b = opts(X)
    r = X.ref(o)
    f0 = flags(X, o)
    X.f('ProcessingOptions::' + X.case, r)
    if not X.no_panic('C22'): return
    got = X.P.truth(X.val)
    if X.case == 'has_none': X.ok('C22', got == (not any(f0)), 'none', lambda: 'has_none is %s with %s' % (got, f0))
    X.ok('C22', flags(X, X.P.rd(r)) == f0, 'observes', 'a query changes the options')

@sc('options_set', 'C22 C31', cases=OPT)
def _(X):
    o, b = opts(X)
    r = X.ref(o)
    f0 = flags(X, o)
    X.f('ProcessingOptions::set_' + X.case, r)
    if not X.no_panic('C22'): return
    f1 = flags(X, X.P.rd(r))
    want = tuple(True if n == X.case else f for n, f in zip(OPT, f0))
    X.ok('C22', f1 == want, 'sets', lambda: 'from %s to %s, must be %s' % (f0, f1, want))

@sc('options_new', 'C22 C31', cases=['new', 'default'])
def _(X):
    if X.case == 'new': X.f('ProcessingOptions::new')
    else: X.mi('Default', 'default', 'ProcessingOptions')
    if not X.no_panic('C22'): return
    o = X.val
    X.ok('C22', flags(X, o) == (False, False, False), 'none', 'new options are not all off')
    X.ok('C22', X.P.truth(X.P.call(X.prog.fn('ProcessingOptions::has_none'), [X.ref(o)])), 'has-none', 'new options are not none')

@sc('options_combine', 'C22 C31', cases=['bitand', 'bitor'])
def _(X):
    a, _a = opts(X, 'a'); b, _b = opts(X, 'b')
    fa, fb = flags(X, a), flags(X, b)
    X.mi({'bitand': 'BitAnd', 'bitor': 'BitOr'}[X.case], X.case, 'ProcessingOptions', a, b)
    if not X.no_panic('C22'): return
    f = flags(X, X.val)
    want = tuple((x and y) if X.case == 'bitand' else (x or y) for x, y in zip(fa, fb))
    X.ok('C22', f == want, 'combine', lambda: '%s of %s and %s is %s' % (X.case, fa, fb, f))

@sc('options_display', 'C22 C31')
def _(X):
    o, b = opts(X)
    fl = flags(X, o)
    f = X.shows(o, 'ProcessingOptions')
    if not X.no_panic('C22'): return
    want = 'ProcessingOptions {%s}' % ', '.join(n for n, x in zip(('AssumeIDs', 'ParseEntities', 'AddNamespaces'), fl) if x)
    X.ok('C22', X.same_str(cat(f.out), want), 'display', lambda: 'displays %s, must be %s' % (sstr(cat(f.out)), want))

# ---------------------------------------------------------------- XML declarations
ENC1 = iv((0x41, 0x5A), (0x61, 0x7A)); ENC2 = ENC1 + iv((0x30, 0x39), 0x2E, 0x5F, 0x2D)
def vers(X):
    p = [a for a in X.prog.adts if X.prog.adts[a]['local'] and short(a) == 'XmlVersion']
    if len(p) != 1: raise Anchor('XmlVersion')
    return Sym(X.P, p[0], 'version', frozenset(range(len(X.prog.adts[p[0]]['v']))))
def vname(X, v):
    p = X.P.un(v); i = X.P.variant(p)
    return {'V10': '1.0', 'V11': '1.1'}[X.prog.adts[res(p).p]['v'][i]['n']]

@sc('decl_new', 'C26', K=3, thorough=dict(K=4))
def _(X):
    P = X.P
    v = vers(X); e = X.s('encoding'); he = X.pick('encoding', ['none', 'some'])
    st = Sym(P, OPTION, 'standalone', frozenset({0, 1}), mk=lambda path, vi, i: Sym(path, 'bool', 'standalone'))
    X.f('XmlDecl::new', v, NONE if he == 'none' else some(e), st)
    good = True
    if he == 'some':
        f, c, rest = P.first(P.chars(e))
        good = f and P.cin(c, ENC1) and all_in(X, rest, ENC2)
    if not good:
        X.ok('C26', X.kind == 'panic', 'encoding', lambda: 'accepts the encoding %s' % vstr(P, e)); return
    if not X.ok('C26', X.kind != 'panic', 'encoding-accepted', lambda: 'rejects the encoding %s: %s' % (vstr(P, e), X.pan.msg)): return
    d = X.val
    for meth, want in (('version', v), ('standalone', st)):
        X.f('XmlDecl::' + meth, X.ref(d))
        if X.no_panic('C26'): X.ok('C26', X.P.veq(X.val, want), meth, 'the %s is not the given one' % meth)
    X.f('XmlDecl::encoding', X.ref(d))
    if X.no_panic('C26'): optstr(X, 'C26', X.val, None if he == 'none' else e, 'encoding-kept', 'the encoding')

def decl(X):
    """a declaration with undetermined parts"""
    P = X.P
    v = vers(X); e = X.d.opt_str('encoding')
    st = Sym(P, OPTION, 'standalone', frozenset({0, 1}), mk=lambda path, vi, i: Sym(path, 'bool', 'standalone'))
    fs = X.prog.adts[X.M.DECL]['v'][0]['f']
    vals = []
    for n, t, pub in fs:
        s = X.prog.T[t]['s']
        vals.append(v if 'XmlVersion' in s else e if 'String' in s else st)
    return Adt(X.M.DECL, 0, tuple(vals)), v, e, st

@sc('decl_display', 'C26 C31')
def _(X):
    d, v, e, st = decl(X)
    f = X.shows(d, 'XmlDecl')
    if not X.no_panic('C26'): return
    w = ['<?xml version="', vname(X, v), '"']
    en = X.opt(e); s = X.opt(st)
    if en is not None: w += [' encoding="', en, '"']
    if s is not None: w += [' standalone="', 'yes' if X.P.truth(s) else 'no', '"']
    w.append('?>')
    X.ok('C26', X.same_str(cat(f.out), cat(tuple(w))), 'display', lambda: 'displays %s, must be %s' % (sstr(cat(f.out)), sstr(cat(tuple(w)))))

@sc('decl_parts', 'C26 C31', cases=['version', 'encoding', 'standalone', 'default', 'parse version', 'display version'])
def _(X):
    d, v, e, st = decl(X)
    if X.case in ('version', 'encoding', 'standalone'):
        X.f('XmlDecl::' + X.case, X.ref(d))
        if X.no_panic('C26'): X.ok('C26', X.P.veq(X.val, {'version': v, 'encoding': e, 'standalone': st}[X.case]), X.case, 'the %s is not the stored one' % X.case)
    elif X.case == 'default':
        X.mi('Default', 'default', 'XmlDecl')
        if not X.no_panic('C26'): return
        f = X.shows(X.val, 'XmlDecl')
        X.ok('C26', X.same_str(cat(f.out), '<?xml version="1.0"?>'), 'default', 'the default declaration')
    elif X.case == 'display version':
        f = X.shows(v, 'XmlVersion')
        if X.no_panic('C26'): X.ok('C26', X.same_str(cat(f.out), vname(X, v)), 'version-display', 'the version')
    else:
        s = X.s('s')
        X.mi('FromStr', 'from_str', 'XmlVersion', X.ref(s))
        if not X.no_panic('C26'): return
        r = res(X.P.un(X.val)); ok = X.P.variant(r) == 0
        w = '1.0' if X.P.s_eq(s, '1.0') else '1.1' if X.P.s_eq(s, '1.1') else None
        X.ok('C26', ok == (w is not None), 'version-parse', lambda: '%s for %s' % ('accepted' if ok else 'rejected', vstr(X.P, s)))
        if ok and w: X.ok('C26', vname(X, res(r).f[0]) == w, 'version-parsed', 'the version')

# ---------------------------------------------------------------- the normal form of attribute values
ENTITIES = {'e': 'x\t&f;&#9;&g;', 'f': ' 2\r\n', 'éa': '<&#38;>', 'n': ''}
CONSTANTS = ['&#65;', '&#x41;&#x6d;', '&#1114111;', '&#1114112;', '&#xD7FF;', '&#xd800;', '&#xDFFF;', '&#x10FFFF;', '&#x110000;', '&#99999999999;', '&#xFFFFFFFFF;', '&#0065;',
             '&#;', '&#x;', '&#xg;', '&#6a;', '&;', '&unknown;', 'a&unknown;b&#33;', '&#13;&#10;&#9;', '  a\t\r\n\x85b ', '&#32;a&#32;', '&#32;', '&#٣;', '&e;', 'a &e;&e; b', '&éa;',
             '&&e;', '&e&f;', '&#&e;', '&e;;', '&#38;#65;', '&#38;e;', 'a;&', '&e', '\r\r\x85\u2028', '&#65;é&#65;\u2028é&f;é', '𝔸&#66;', 'a&n;', '&n;', '&n;&n;b&#67;', 'ab&n;c&f;d&n; ', 'a&n;b']
CHARREF = [('&', [(0x26, 0x26)]), ('#', [(0x23, 0x23)])]
def normal(X, t, trim=True, depth=0):
    """the specified normal form of the text t (a tuple of characters)"""
    P = X.P
    is_ = lambda c, *v: P.cin(c, [(x, x) for x in sorted(v)])
    t1 = []; i = 0
    while i < len(t):                       # line ends
        c = t[i]; i += 1
        if is_(c, 13):
            if i < len(t) and is_(t[i], 10, 0x85): i += 1
            c = 10
        elif is_(c, 0x85, 0x2028): c = 10
        t1.append(c)
    t = t1; out = []; i = 0
    while i < len(t):
        c = t[i]
        if is_(c, 0x26) and i + 1 < len(t):
            if is_(t[i + 1], 0x23):
                j = i + 2; hexa = j < len(t) and is_(t[j], 0x78); j += hexa; n = 0; k = j
                while j < len(t):
                    for d in '0123456789abcdefABCDEF'[:None if hexa else 10]:
                        if is_(t[j], ord(d)): n = n * (16 if hexa else 10) + int(d, 16); break
                    else: break
                    j += 1
                if j > k and j < len(t) and is_(t[j], 0x3B) and n <= 0x10FFFF and not 0xD800 <= n <= 0xDFFF:
                    out.append(n); i = j + 1; continue
            elif depth < 3 and X.entities:
                for nm, v in X.entities.items():
                    if i + len(nm) + 1 < len(t) and all(is_(t[i + 1 + q], ord(y)) for q, y in enumerate(nm + ';')):
                        out += normal(X, tuple(ord(y) for y in v), False, depth + 1); i += len(nm) + 2; break
                else: out.append(c); i += 1
                continue
        out.append(32 if is_(c, 9, 10, 13) else c); i += 1
    if trim:
        while out and is_(out[0], 32): out.pop(0)
        while out and is_(out[-1], 32): out.pop()
    return out

def norm_text(X):
    """the text of the case as a tuple of characters"""
    sym = lambda n: CSym(X.P, n)
    k = X.case
    if k.startswith('characters'): return tuple(sym('c%d' % i) for i in range(int(k.split()[1]) + (X.P.cfg.KC - 3 if k.endswith('3') else 0)))
    if k == 'constants': return tuple(ord(c) for c in X.pick('text', CONSTANTS))
    if k == 'decimal': return (0x26, 0x23, sym('c0'), sym('c1'), 0x3B, 0x7A)
    if k == 'hexadecimal': return (0x26, 0x23, 0x78, sym('c0'), sym('c1'), 0x3B)
    if k == 'entity': return (0x26, sym('c0'), sym('c1'), 0x3B, 0x20, 0x7A)
    raise KeyError(k)

@sc('normal_form', 'C36 C31', cases=['characters 0', 'characters 1', 'characters 2', 'characters 3', 'constants', 'decimal', 'hexadecimal', 'entity'], K=1, KM=1, thorough=dict(KC=4),
    keep=FS + ('text::escape', 'text::normalize_attribute_value', 'text::normalize_end_of_lines', 'attrvalue'))
def _(X):
    """the value of an attribute whose text is that of the case"""
    P = X.P
    declared = X.case == 'entity' or X.case == 'constants' and X.pick('entities', [False, True])
    X.entities = ENTITIES if declared else {}
    kw = {}
    if declared:
        ents = []
        for nm, v in ENTITIES.items():
            n = X.d.name('entity name', local=nm, prefix=NONE, ns=NONE)
            e = X.node('entity ' + nm, {'Entity'}, depth=0, up=0, parent=None, nm=n, value=some(v), children=None)
            ents.append((n, handle(X.M, e)))
        dt = X.node('type', {'DocumentType'}, depth=0, up=0, parent=None, owner=None, ext={'i_entities': MapV(tuple(ents), None)})
        kw['ext'] = {'i_document_type': some(handle(X.M, dt))}
    else: kw['ext'] = {'i_document_type': NONE}
    D = X.doc('doc', **kw)
    t = norm_text(X)
    o = X.node('self', {'Attribute'}, owner=D, children=None)
    c = X.node('text', {'Text'}, depth=0, up=0, owner=D, parent=o, children=None, value=some(cat((Run(t),)) if t else ''))
    X.d.link(o, [c])
    X.m('Attribute', 'value', X.r(o))
    if not X.no_panic('C36'): return
    got = X.opt(X.val)
    if not X.ok('C36', got is not None, 'presence', 'the attribute has no value'): return
    want = normal(X, t)
    w = escaped(X, cat((Run(tuple(want)),)) if want else '')
    X.ok('C36', X.same_str(got, w), 'text', lambda: 'the value of the text %s is %s, must be %s' % (sstr(cat((Run(t),)) if t else ''), vstr(P, got), vstr(P, w)))

# ---------------------------------------------------------------- changing the prefix of a name
@sc('name_set_prefix', 'C13 C31', cases=['none', 'a prefix', 'with a colon'], opq=NAMEPARTS)
def _(X):
    P = X.P
    n = X.d.name('name'); c = Cell(n)
    if X.case == 'none': s = None
    else:
        s = X.s('prefix'); s.no = frozenset(':')
        if X.case == 'with a colon':
            t = X.s('rest'); s = cat((s, ':', t))
    before = parts(X, n)
    X.f('Name::set_prefix', Ref(c), NONE if s is None else some(s))
    if not X.no_panic('C13'): return
    k, v = X.result()
    ns, p, l = before
    bad = []                # a name that is inconsistent beforehand says nothing
    if ns is not None and (P.s_is_empty(ns) or P.s_eq(l, 'xml') and not P.s_eq(ns, XMLURI) or P.s_eq(l, 'xmlns') and not P.s_eq(ns, XMLNS)): return
    errs = set()
    if s is not None:
        if P.s_is_empty(s): errs.add('Syntax')
        elif X.case == 'with a colon': errs |= {'Syntax', 'InvalidCharacter'}
        elif not valid(X, s): errs.add('InvalidCharacter')
        elif ns is not None and (P.s_eq(s, 'xml') and not P.s_eq(ns, XMLURI) or P.s_eq(s, 'xmlns') and not P.s_eq(ns, XMLNS)): errs.add('Namespace')
    ns1, p1, l1 = parts(X, P.un(c.v))
    want = p if errs else s
    X.ok('C13', (k == 'err' and v in errs) if errs else k == 'ok', 'outcome', lambda: '%s for the prefix %s, must be %s' % (k if k == 'ok' else v, s if s is None else sstr(s), '|'.join(errs) or 'Ok'))
    X.ok('C13', (p1 is None) == (want is None) and (want is None or X.same_str(p1, want)), 'prefix', lambda: 'the prefix is %s, must be %s' % (p1 and vstr(P, p1), want and sstr(want)))
    X.ok('C13', X.same_str(l1, l) and (ns1 is None) == (ns is None) and (ns is None or X.same_str(ns1, ns)), 'rest', 'the local name or namespace changes')

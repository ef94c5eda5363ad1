"""serialisation: what each node type writes, and errors of the sink"""
from suite import *
from s_attr import parts, qname, xmap, value_of
from s_nav import kids_of
import itertools

def mkshow(P, o, args):
    """display of another node: an undetermined string (by induction its own specification)"""
    return SSym(P, 'display(%s)' % o.name)

def sink(env, unrolled=False):
    """a recursive call of a function that writes a node to a formatter, for another node than the one analysed, writes
    the display of that node (induction on the height of the tree); that the function writes all of the node analysed,
    so that the hypothesis is the right one, is checked at the end by `induction`"""
    T = env.prog.T
    def h(P, key, args):
        x = P.x
        try: o = P.dom.obj(args[0])
        except (EngineError, AttributeError): o = None
        if o is None or o.node is None: return P.call_body(key, args)
        if (key, x.top) in x.fmtstack and o is not x.top:
            x.assumed.add(key)
            return stdm.fwrite(P, stdm.fmtof(P, args[-1]), shown(P, o))
        x.fmtstack.append((key, o))
        f = stdm.fmtof(P, args[-1]); n = len(f.out)
        try: return P.call_body(key, args)
        finally:
            x.fmtstack.pop()
            if o is x.top: x.fmtout.append((key, tuple(f.out[n:])))
    d = {}
    for k, b in env.prog.B.items():
        if '{' in k or b['args'] < 2: continue
        ts = [T[b['locals'][i + 1][0]]['s'] for i in range(b['args'])]
        if 'Formatter' in ts[-1] and ts[0].startswith('&'): d[k] = h
    return d

def begin(X, o):
    X.top = o; X.fmtstack = []; X.assumed = set(); X.fmtout = []; X.shown = {}

def induction(X, f):
    """the functions assumed to write the display of other nodes write that of the node analysed"""
    w = X.P.key(cat(tuple(f.out)))
    for k in sorted(X.assumed):
        if not any(q == k and X.P.key(cat(out)) == w for q, out in X.fmtout): X.P.imp('%s is recursive and writes a part of a node' % k); return

def matches(X, got, alts, depth=0):
    """is the text got one of the alternatives? Displays of other nodes that were written without a recursive call
    are compared with their specification"""
    P = X.P
    if any(X.same_str(got, cat(tuple(s))) for s in alts): return True
    if depth > 3: return False
    have = {id(p) for p in sparts(got)}
    out = []
    for s in alts:
        more = [[]]; n = 0
        for p in s:
            o = X.shown.get(id(p)) if p.__class__ is SSym else None
            sub = None
            if o is not None and id(p) not in have: sub = spec(X, o)
            if sub is None: more = [m + [p] for m in more]; continue
            n += 1; more = [m + list(q) for m in more for q in sub]
        if n: out += more
    return bool(out) and matches(X, got, out, depth + 1)

def shown(P, o):
    m = o.node.get('shown') if o.node else None
    if m is None: m = o.node['shown'] = SSym(P, 'display(%s)' % o.name)
    P.x.shown[id(m)] = o
    return m

def data(X, o):
    return X.opt(X.P.call(X.prog.find('CharacterData', 'data'), [X.r(o)]))

def ident(X, o, fn):
    return X.opt(X.d.xfield(o, X.d.type(o), fn, init=True))

def mapvals(X, o, fn):
    m = X.P.map_flat(xmap(X, o, X.d.type(o), fn, init=True))
    if m.g is not None and m.g.bound is None: return [X.d.obj(v) for k, v in m.e], True
    return [X.d.obj(v) for k, v in m.e], False

def spec(X, o):
    """list of alternatives (lists of strings), or None when not specified"""
    t = X.d.type(o); P = X.P
    q = qname(X, X.d.init_field(o, 'i_name'))
    kids = [shown(P, c) if c.__class__ is not Gap else c for c in kids_of(X, o)] if t in ('Element', 'Document', 'DocumentFragment') else []
    if any(c.__class__ is Gap for c in kids): return None
    if t == 'Element':
        at, more = mapvals(X, o, 'i_attributes')
        return [['<', q] + [y for a in p for y in (' ', shown(P, a))] + ['>'] + kids + ['</', q, '>'] for p in itertools.permutations(at)]
    if t == 'Attribute':
        v = value_of(X, o)
        return [[q, '="', v if v is not None else '', '"']]
    if t in ('Text', 'CData', 'Comment'):
        v = data(X, o)
        if v is None: return [[]]
        return [{'Text': [v], 'CData': ['<![CDATA[ ', v, ' ]]>'], 'Comment': ['<!--', v, '-->']}[t]]
    if t == 'ProcessingInstruction':
        v = X.opt(X.d.init_field(o, 'i_value'))
        return [['<?', q] + ([' ', v] if v is not None else []) + ['?>']]
    if t == 'EntityReference': return [['&', q, ';']]
    if t == 'Document':
        d = X.opt(X.d.xfield(o, 'Document', 'i_xml_declaration', init=True))
        dt = X.d.objopt(X.d.xfield(o, 'Document', 'i_document_type', init=True))
        w = []
        if d is not None:
            f = Fmt(); P.call(X.prog.find('Display', 'fmt', 'XmlDecl'), [X.ref(d), Ref(Cell(f))]); w += f.out
        if dt is not None: w.append(shown(P, dt))
        return [w + kids]
    if t == 'DocumentFragment': return [['<![CDATA[', q, ' '] + kids + [']]>']]
    if t in ('Notation', 'Entity', 'DocumentType'):
        pid, sid = ident(X, o, 'i_public_id'), ident(X, o, 'i_system_id')
        w = [{'Notation': '<!NOTATION ', 'Entity': '<!ENTITY ', 'DocumentType': '<!DOCTYPE '}[t], q]
        if t == 'DocumentType':
            if pid is not None: w += [' PUBLIC "', pid, '"']
            if sid is not None: w += [' SYSTEM "', sid, '"']
            es, m1 = mapvals(X, o, 'i_entities'); ns, m2 = mapvals(X, o, 'i_notations')
            sub = ident(X, o, 'i_internal_subset')
            out = []
            for a in itertools.permutations(es):
                for b in itertools.permutations(ns):
                    y = list(w)
                    if a or b or sub is not None: y += ['['] + [shown(P, e) for e in a + b] + ([sub] if sub is not None else []) + [']']
                    out.append(y + ['>'])
            return out
        if pid is None and sid is None:
            if t == 'Entity':
                v = X.opt(X.d.init_field(o, 'i_value')); w += [' "', v if v is not None else '', '"']
        elif pid is not None:
            w += [' PUBLIC "', pid, '"']
            if sid is not None: w += [' "', sid, '"']
        else: w += [' SYSTEM "', sid, '"']
        if t == 'Entity':
            n = ident(X, o, 'i_notation_name')
            # the tests expect the notation's name without the NDATA keyword; either form is accepted
            if n is not None: return [w + [' ', n, '>'], w + [' NDATA ', n, '>']]
        return [w + ['>']]
    return None

@sc('display', 'C15 C06 C31', cases=sorted(ANYT), K=2, KM=2, thorough=dict(K=3, KM=2), opq=sink)
def _(X):
    o = X.node('self', {X.case})
    begin(X, o)
    f = Fmt(); f.alt = False
    X.m('Display', 'fmt', X.r(o), Ref(Cell(f)))
    if not X.no_panic('C15'): return
    X.unchanged('C06', 'observer')
    k, _v = X.result()
    X.ok('C15', k == 'ok', 'ok', 'fails although the sink accepts every write')
    induction(X, f)
    ss = spec(X, o)
    if ss is None: return
    got = cat(tuple(f.out))
    X.ok('C15', matches(X, got, ss), 'text', lambda: 'writes %s, must be %s' % (sstr(got), sstr(cat(tuple(ss[0])))))

@sc('display_alternate', 'C15 C31', cases=sorted(ANYT), K=1, KM=1, opq=sink)
def _(X):
    """the alternate form is no different"""
    o = X.node('self', {X.case})
    begin(X, o)
    f = Fmt(); f.alt = True
    X.m('Display', 'fmt', X.r(o), Ref(Cell(f)))
    if not X.no_panic('C15'): return
    induction(X, f)
    ss = spec(X, o)
    if ss is None: return
    got = cat(tuple(f.out))
    X.ok('C15', matches(X, got, ss), 'text', lambda: 'writes %s, must be %s' % (sstr(got), sstr(cat(tuple(ss[0])))))

@sc('display_error', 'C15 C31', cases=sorted(ANYT), K=2, KM=1, thorough=dict(K=3), fmt_fail=True, opq=sink)
def _(X):
    """a write error of the sink ends the operation with that error"""
    o = X.node('self', {X.case})
    begin(X, o)
    f = Fmt(sink=True); f.alt = False
    X.m('Display', 'fmt', X.r(o), Ref(Cell(f)))
    if not X.no_panic('C15'): return
    k, _v = X.result()
    X.ok('C15', (k == 'err') == f.failed, 'error', lambda: 'the sink %s a write, but the operation %s' % ('refused' if f.failed else 'accepted every', 'succeeds' if k == 'ok' else 'fails'))
    X.ok('C15', not f.failed or f.after == 0, 'stops', 'writes on after the sink has refused a write')

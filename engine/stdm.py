"""Transfer functions for the std / log / regex functions the crate calls (trusted base, see DESIGN.md)."""
from core import *
from interp import iv_and, iv_sub, iv_union, vstr, sstr
import re

M = {}
def m(*names):
    def deco(f):
        for n in names: M[n] = f
        return f
    return deco

_contc = {}
def container(d):
    k = (d['p'], d.get('tr'), d.get('iadt'))
    c = _contc.get(k)
    if c is None:
        if d.get('tr'): c = short(d['tr'])
        elif d.get('iadt'): c = short(d['iadt'])
        else:
            p = d['p']
            mm = re.search(r'<impl ([^>]*)>::\w+$', p)
            if mm:
                c = mm.group(1)
                c = {'[T]': 'slice', '[u8]': 'slice'}.get(c, c)
                if c.startswith('['): c = 'slice'
                if c in ('u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize', 'u128', 'i128'): c = 'int'
            else:
                ps = re.sub(r'::<[^>]*>', '', p).split('::')
                c = ps[-2] if len(ps) > 1 else ''
        _contc[k] = c
    return c

def fit(P, key, args):
    """blanket impls for &T forward to T: collapse &&T arguments to the &T the body expects"""
    b = P.prog.B[key]; T = P.prog.T
    out = []
    for i, a in enumerate(args):
        t = T[b['locals'][i + 1][0]] if i < b['args'] else None
        v = res(a)
        if t and t['k'] == 'ref' and T[t['e']]['k'] != 'ref' and v.__class__ is Ref:
            x = res(P.rd(v))
            if x.__class__ in (Ref, Guard) : a = toref(P, v)
        out.append(a)
    return out

def dispatch(P, d, args, dt, at):
    B = P.prog.B
    r = d.get('r')
    if d.get('tr') and short(d['tr']) in ('FnOnce', 'FnMut', 'Fn') and d.get('n') in ('call_once', 'call', 'call_mut'):
        f = P.un1(args[0])
        if f.__class__ in (Clo, FnV) or r is None or r not in B: return M['FnOnce.call_once'](P, args, d, dt, at)
    if r is not None and r in B and d.get('ik') != 'virtual':
        # a call resolved to a local body (for a default method the runtime type may still override)
        if not d.get('tr') or d.get('itr') or '<' in r:
            return P.call(r, args)
    tr = d.get('tr')
    if tr:
        st = short(tr); n = d['n']
        a = P.adt_of(args[0]) if args else None
        if a is None and args and P.un(args[0]).__class__ is Sym: a = P.un(args[0]).ty
        if a:
            k = P.local_impl(st, n, a)
            if k: return P.call(k, fit(P, k, args))
        dk = tr + '::' + n
        if dk in B: return P.call(dk, fit(P, dk, args))
    elif d['p'] in B:
        return P.call(d['p'], args)
    c = container(d)
    f = M.get(c + '.' + d['n']) if d.get('n') else None
    if f is None:
        f = M.get('*.' + (d.get('n') or ''))
        if f is None:
            x = ctor(P, d, args)
            if x is not None: return x
    if f is None:
        if c in ITER_ADAPT or (args and P.un1(args[0]).__class__ is It):
            pass
        P.imp('call of %s (%s.%s)' % (d['p'], c, d.get('n')))
        for a in args:
            a = res(a)
            if a.__class__ is Ref and P.un1(a).__class__ not in (Adt, Sym, RcV, RCell): pass
        if dt is None: return Opq(P, d['p'])
        if P.prog.T[dt]['k'] == 'never': raise Prune()
        return P.fresh_t(dt, 'result of ' + (d.get('n') or d['p']))
    return f(P, args, d, dt, at)

ITER_ADAPT = ('Iterator',)

def ctor(P, d, args):
    p = d['p']
    s = short(p)
    if p.startswith('std::option::Option') or p.startswith('core::option'):
        if s == 'Some': return some(args[0])
    if p.startswith('std::result::Result'):
        if s == 'Ok': return ok(args[0])
        if s == 'Err': return err(args[0])
    a = P.prog.adts.get(p)
    if a and not a['enum']: return Adt(p, 0, tuple(args))
    q = p.rsplit('::', 1)[0]
    q = re.sub(r'::<[^>]*>$', '', q)
    a = P.prog.adts.get(q)
    if a:
        for i, v in enumerate(a['v']):
            if v['n'] == s: return Adt(q, i, tuple(args))
    return None

def ty_of(P, dt):
    return P.prog.T[dt] if dt is not None else None

# ------------------------------------------------------------------ helpers
def S(P, v):
    """string term"""
    v = P.un(v)
    if v.__class__ in STRT: return v
    if v.__class__ is Opq:
        k = ('opqs', v.id)
        if k not in P.memo: P.memo[k] = SSym(P, v.what)
        return P.memo[k]
    if v.__class__ is Adt and short(v.p) in ('Cow', 'Box'): return S(P, v.f[0])
    raise EngineError('string expected, got %s' % v.__class__.__name__)

def opt(P, o):
    """None or (payload,)"""
    o = res(o)
    if o.__class__ is Ref: o = P.un1(o)
    vi = P.variant(o)
    o = res(o)
    if o.p != OPTION: raise EngineError('Option expected: %s' % o.p)
    return None if vi == 0 else (o.f[0],)

def rslt(P, o):
    o = res(o)
    if o.__class__ is Ref: o = P.un1(o)
    vi = P.variant(o)
    return vi == 0, res(o).f[0]

def optref(P, r):
    """reference to the payload of the Option behind r, or None"""
    r = res(r)
    v = res(P.rd(r))
    while v.__class__ is Ref: r = v; v = res(P.rd(r))
    if v.__class__ is Guard: r = Ref(v.rc.c, v.p); v = res(P.rd(r))
    if P.variant(v) == 0: return None
    return Ref(r.c, r.p + (('d', 1), 0))

def toref(P, v):
    """normalise a reference value: &&T -> &T, guards -> interior reference"""
    v = res(v)
    while True:
        if v.__class__ is Guard: return Ref(v.rc.c, v.p)
        if v.__class__ is Ref:
            x = res(P.rd(v))
            if x.__class__ in (Ref, Guard): v = x; continue
            return v
        return Ref(Cell(v))

def refto(v):
    v0 = res(v)
    return v0 if v0.__class__ in STRT or v0.__class__ is Ref else Ref(Cell(v))

def b2o(c, f):
    return some(f()) if c else NONE

def ordering(i):
    return Adt('std::cmp::Ordering', {-1: 0, 0: 1, 1: 2}[i], ())

# ------------------------------------------------------------------ Option
@m('Option.is_some')
def _(P, a, d, dt, at): return opt(P, a[0]) is not None
@m('Option.is_none')
def _(P, a, d, dt, at): return opt(P, a[0]) is None
@m('Option.unwrap', 'Option.expect')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    if o is None: P.panic('called `Option::%s()` on a `None` value' % d['n'], 'unwrap')
    return o[0]
@m('Option.unwrap_unchecked')
def _(P, a, d, dt, at): return opt(P, a[0])[0]
@m('Option.as_ref', 'Option.as_mut')
def _(P, a, d, dt, at):
    r = optref(P, a[0])
    return NONE if r is None else some(r)
@m('Option.as_deref', 'Option.as_deref_mut')
def _(P, a, d, dt, at):
    r = optref(P, a[0])
    return NONE if r is None else some(deref(P, r))
@m('Option.map')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    return NONE if o is None else some(P.callv(a[1], [o[0]]))
@m('Option.inspect')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    if o is not None: P.callv(a[1], [refto(o[0])])
    return NONE if o is None else some(o[0])
@m('Option.and_then')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    return NONE if o is None else P.callv(a[1], [o[0]])
@m('Option.and')
def _(P, a, d, dt, at): return NONE if opt(P, a[0]) is None else a[1]
@m('Option.or')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return a[1] if o is None else some(o[0])
@m('Option.xor')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); q = opt(P, a[1])
    return NONE if (o is None) == (q is None) else some((o or q)[0])
@m('Option.or_else')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return P.callv(a[1], []) if o is None else some(o[0])
@m('Option.filter')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    return some(o[0]) if o is not None and P.truth(P.callv(a[1], [refto(o[0])])) else NONE
@m('Option.map_or')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return a[1] if o is None else P.callv(a[2], [o[0]])
@m('Option.map_or_else')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return P.callv(a[1], []) if o is None else P.callv(a[2], [o[0]])
@m('Option.is_some_and')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return o is not None and P.truth(P.callv(a[1], [o[0]]))
@m('Option.is_none_or')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return o is None or P.truth(P.callv(a[1], [o[0]]))
@m('Option.ok_or')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return err(a[1]) if o is None else ok(o[0])
@m('Option.ok_or_else')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return err(P.callv(a[1], [])) if o is None else ok(o[0])
@m('Option.unwrap_or')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return a[1] if o is None else o[0]
@m('Option.unwrap_or_else')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return P.callv(a[1], []) if o is None else o[0]
@m('Option.unwrap_or_default')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return default_of(P, dt) if o is None else o[0]
@m('Option.cloned', 'Option.copied')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return NONE if o is None else some(clone(P, P.un1(o[0])))
@m('Option.flatten')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); return NONE if o is None else o[0]
@m('Option.transpose')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    if o is None: return ok(NONE)
    k, v = rslt(P, o[0])
    return ok(some(v)) if k else err(v)
@m('Option.zip')
def _(P, a, d, dt, at):
    o = opt(P, a[0]); q = opt(P, a[1])
    return NONE if o is None or q is None else some(Tup((o[0], q[0])))
@m('Option.take')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); v = P.rd(r); P.wr(r, NONE); return v
@m('Option.take_if')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); v = P.rd(r)
    o = optref(P, r)
    if o is not None and P.truth(P.callv(a[1], [o])):
        v = P.rd(r); P.wr(r, NONE); return v
    return NONE
@m('Option.replace')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); v = P.rd(r); P.wr(r, some(a[1])); return v
@m('Option.insert')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); P.wr(r, some(a[1])); return Ref(r.c, r.p + (('d', 1), 0))
@m('Option.get_or_insert_with', 'Option.get_or_insert')
def _(P, a, d, dt, at):
    r = toref(P, a[0])
    if opt(P, r) is None: P.wr(r, some(P.callv(a[1], []) if d['n'].endswith('with') else a[1]))
    return Ref(r.c, r.p + (('d', 1), 0))
@m('Option.iter', 'Option.into_iter', 'Option.iter_mut')
def _(P, a, d, dt, at): return as_it(P, a[0])
@m('Option.unzip')
def _(P, a, d, dt, at):
    o = opt(P, a[0])
    return Tup((NONE, NONE)) if o is None else Tup((some(P.getf(o[0], 0)), some(P.getf(o[0], 1))))

# ------------------------------------------------------------------ Result
@m('Result.is_ok')
def _(P, a, d, dt, at): return rslt(P, a[0])[0]
@m('Result.is_err')
def _(P, a, d, dt, at): return not rslt(P, a[0])[0]
@m('Result.ok')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return some(v) if k else NONE
@m('Result.err')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return NONE if k else some(v)
@m('Result.unwrap', 'Result.expect')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0])
    if not k: P.panic('called `Result::%s()` on an `Err` value: %s' % (d['n'], vstr(P, v)), 'unwrap')
    return v
@m('Result.unwrap_err', 'Result.expect_err')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0])
    if k: P.panic('called `Result::unwrap_err()` on an `Ok` value', 'unwrap')
    return v
@m('Result.unwrap_or')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return v if k else a[1]
@m('Result.unwrap_or_else')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return v if k else P.callv(a[1], [v])
@m('Result.unwrap_or_default')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return v if k else default_of(P, dt)
@m('Result.map')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return ok(P.callv(a[1], [v])) if k else err(v)
@m('Result.map_err')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return ok(v) if k else err(P.callv(a[1], [v]))
@m('Result.map_or')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return P.callv(a[2], [v]) if k else a[1]
@m('Result.map_or_else')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return P.callv(a[2], [v]) if k else P.callv(a[1], [v])
@m('Result.and_then')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return P.callv(a[1], [v]) if k else err(v)
@m('Result.and')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return a[1] if k else err(v)
@m('Result.or_else')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return ok(v) if k else P.callv(a[1], [v])
@m('Result.or')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return ok(v) if k else a[1]
@m('Result.is_ok_and')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return k and P.truth(P.callv(a[1], [v]))
@m('Result.is_err_and')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return not k and P.truth(P.callv(a[1], [v]))
@m('Result.as_ref', 'Result.as_mut')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); k, v = rslt(P, r)
    x = Ref(r.c, r.p + (('d', 0 if k else 1), 0))
    return ok(x) if k else err(x)
@m('Result.inspect_err', 'Result.inspect')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0])
    if k == (d['n'] == 'inspect'): P.callv(a[1], [refto(v)])
    return ok(v) if k else err(v)
@m('Result.transpose')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0])
    if not k: return some(err(v))
    o = opt(P, v)
    return NONE if o is None else some(ok(o[0]))
@m('Result.cloned', 'Result.copied')
def _(P, a, d, dt, at):
    k, v = rslt(P, a[0]); return ok(clone(P, P.un1(v))) if k else err(v)

# ------------------------------------------------------------------ ?
@m('Try.branch')
def _(P, a, d, dt, at):
    v = res(a[0])
    vi = P.variant(v); v = res(v)
    if v.p == OPTION: return Adt(CFLOW, 0, (v.f[0],)) if vi == 1 else Adt(CFLOW, 1, (NONE,))
    if v.p == RESULT: return Adt(CFLOW, 0, (v.f[0],)) if vi == 0 else Adt(CFLOW, 1, (v,))
    return v
@m('FromResidual.from_residual')
def _(P, a, d, dt, at):
    v = res(a[0])
    if v.p == OPTION: return NONE
    e = v.f[0]
    t = ty_of(P, dt)
    if t and t['k'] == 'adt' and t['p'] == RESULT:
        et = P.prog.T[t['a'][1]]
        x = res(e)
        ep = x.p if x.__class__ is Adt else x.ty if x.__class__ is Sym else None
        if et['k'] == 'adt' and ep and ep != et['p']:
            k = from_impl(P, et['p'], x)
            if k: return err(P.call(k, [e]))
            if et['p'] == 'std::boxed::Box': return err(Ref(Cell(e)))
        elif et['k'] == 'adt' and x.__class__ in STRT:
            k = from_impl(P, et['p'], x)
            if k: return err(P.call(k, [e]))
    return err(e)
@m('Try.from_output')
def _(P, a, d, dt, at):
    t = ty_of(P, dt)
    return some(a[0]) if t and t.get('p') == OPTION else ok(a[0])

def from_impl(P, adt, x):
    """local `impl From<typeof x> for adt`"""
    for im, k in P.prog.impls.get(('From', 'from'), []):
        t = P.prog.T[im['st']]
        if t['k'] != 'adt' or t['p'] != adt or k not in P.prog.B: continue
        ft = P.prog.T[P.prog.B[k]['locals'][1][0]]
        if ft['k'] == 'ref' and P.prog.T[ft['e']]['k'] == 'str' and x.__class__ in STRT: return k
        if ft['k'] == 'adt' and ft['p'] == 'std::string::String' and x.__class__ in STRT: return k
        if ft['k'] == 'adt' and (x.__class__ is Adt and x.p == ft['p'] or x.__class__ is Sym and x.ty == ft['p']): return k
        if ft['k'] == 'tuple' and x.__class__ is Tup: return k
    return None

# ------------------------------------------------------------------ clone / default / eq / convert
def clone(P, v):
    v = res(v)
    t = v.__class__
    if t is Adt:
        k = P.local_impl('Clone', 'clone', v.p)
        if k: return P.call(k, [Ref(Cell(v))])
        if v.f: return Adt(v.p, v.vi, tuple(clone(P, x) for x in v.f))
        return v
    if t is Tup: return Tup(tuple(clone(P, x) for x in v.f))
    if t is Seq: return Seq(tuple(x if x.__class__ is Gap else clone(P, x) for x in flat_items(v.i)))
    if t is MapV:
        mm = P.map_flat(v)
        return MapV(tuple((clone(P, k), clone(P, x)) for k, x in mm.e), mm.g)
    if t is RCell:
        return RCell(P, clone(P, v.c.v))
    if t is Sym and v.ty not in (OPTION, RESULT):
        k = P.local_impl('Clone', 'clone', v.ty)
        if k: return P.call(k, [Ref(Cell(v))])
    return v

@m('Clone.clone', '*.clone')
def _(P, a, d, dt, at):
    v = res(a[0])
    if v.__class__ is not Ref: return v
    return clone(P, P.un1(v))
@m('Clone.clone_from')
def _(P, a, d, dt, at):
    P.wr(toref(P, a[0]), clone(P, P.un1(a[1]))); return UNIT
@m('ToOwned.to_owned', 'ToOwned.clone_into')
def _(P, a, d, dt, at):
    v = P.un1(a[0])
    if v.__class__ is Seq: return clone(P, v)
    return clone(P, P.un(a[0])) if v.__class__ in STRT or v.__class__ in (Ref, Guard) else clone(P, v)

def default_of(P, dt):
    t = P.prog.T[dt]
    k = t['k']
    if k == 'bool': return False
    if k in ('int', 'uint'): return 0
    if k == 'char': return 0
    if k == 'str': return ''
    if k == 'ref': return default_of(P, t['e']) if P.prog.T[t['e']]['k'] == 'str' else Ref(Cell(default_of(P, t['e'])))
    if k == 'tuple': return Tup(tuple(default_of(P, x) for x in t['a']))
    if k == 'slice': return Seq(())
    if k == 'adt':
        s = short(t['p'])
        if t['p'] == OPTION: return NONE
        if s == 'String': return ''
        if s in ('Vec', 'VecDeque'): return Seq(())
        if s in ('HashMap', 'BTreeMap', 'HashSet', 'BTreeSet'): return MapV((), None)
        lk = P.local_impl('Default', 'default', t['p'])
        if lk: return P.call(lk, [])
        if s == 'Box': return Ref(Cell(default_of(P, t['a'][0])))
        if s == 'RefCell': return RCell(P, default_of(P, t['a'][0]))
        if s == 'Weak': return WeakV(None)
        if s == 'Rc': return RcV(Obj(P, default_of(P, t['a'][0])))
    P.imp('default of ' + t['s'])
    return P.fresh_t(dt, 'default')

@m('Default.default')
def _(P, a, d, dt, at):
    if dt is None: dt = d['a'][0]
    return default_of(P, dt)

@m('PartialEq.eq')
def _(P, a, d, dt, at): return P.veq(a[0], a[1])
@m('PartialEq.ne')
def _(P, a, d, dt, at): return not P.veq(a[0], a[1])
@m('PartialOrd.lt', 'PartialOrd.le', 'PartialOrd.gt', 'PartialOrd.ge')
def _(P, a, d, dt, at):
    x = P.un(a[0]); y = P.un(a[1])
    if 'log::Level' in (d.get('ist') or '') or any(P.prog.T[t]['s'].find('log::Level') >= 0 for t in (at or [])): return False
    for v in (x, y):
        if v.__class__ in (Adt, Sym) and (v.p if v.__class__ is Adt else v.ty).startswith('log::'): return False
        if v.__class__ is Opq and 'log::' in v.what: return False
    if x.__class__ in (int, Lin, CSym) and y.__class__ in (int, Lin, CSym):
        return P.binop({'lt': 'Lt', 'le': 'Le', 'gt': 'Gt', 'ge': 'Ge'}[d['n']], x, y)
    P.imp('ordering ' + d['n'])
    return P.memo_bool(('ord', d['n'], P.key(x), P.key(y)), 'order')
@m('Ord.cmp', 'PartialOrd.partial_cmp')
def _(P, a, d, dt, at):
    x = P.un(a[0]); y = P.un(a[1])
    w = (lambda o: some(o)) if d['n'] == 'partial_cmp' else (lambda o: o)
    if x.__class__ in (int, Lin) and y.__class__ in (int, Lin):
        if P.ge0(ladd(ladd(y, x, -1), -1)): return w(ordering(-1))
        if P.eq0(ladd(y, x, -1)): return w(ordering(0))
        return w(ordering(1))
    if x.__class__ is str and y.__class__ is str: return w(ordering((x > y) - (x < y)))
    P.imp('ordering ' + d['n'])
    return w(ordering(P.choose(3, 'order') - 1))
@m('Ord.min', 'Ord.max', 'cmp.min', 'cmp.max')
def _(P, a, d, dt, at):
    x = res(a[0]); y = res(a[1])
    le = P.ge0(ladd(y, x, -1), '%s <= %s' % (x, y))
    return (x if le else y) if d['n'] == 'min' else (y if le else x)
@m('Ordering.is_eq')
def _(P, a, d, dt, at): return P.variant(a[0]) == 1
@m('Ordering.is_ne')
def _(P, a, d, dt, at): return P.variant(a[0]) != 1
@m('Hash.hash', 'Hasher.write_u8', 'Hasher.finish', 'Hash.hash_slice')
def _(P, a, d, dt, at):
    P.events.append(('hash', a[0]))
    return UNIT

def convert(P, v, dt, what):
    v = res(v)
    t = P.prog.T[dt] if dt is not None else None
    if t is None or t['k'] == 'param': return v
    if t['k'] == 'adt':
        p = t['p']
        k = from_impl(P, p, v)
        if k: return P.call(k, [v])
        if p == OPTION:
            if (v.p if v.__class__ is Adt else v.ty if v.__class__ is Sym else None) == OPTION: return v
            return some(v)
        if short(p) == 'String':
            if v.__class__ in STRT: return v
            if v.__class__ in (int, CSym): return cat((Run((v,)),))
            u = P.un(v)
            if u.__class__ in STRT: return u
            # local impl Into<String> / From<Local> for String
            for im, kk in P.prog.impls.get(('From', 'from'), []):
                st = P.prog.T[im['st']]
                if st['s'].endswith('String') and kk in P.prog.B:
                    ft = P.prog.T[P.prog.B[kk]['locals'][1][0]]
                    if ft['k'] == 'adt' and u.__class__ in (Adt, Sym) and ft['p'] == (u.p if u.__class__ is Adt else u.ty): return P.call(kk, [v])
            if u.__class__ is Adt and short(u.p) == 'Cow': return S(P, u)
        if short(p) == 'Box': return Ref(Cell(v))
        if short(p) == 'Rc': return v if v.__class__ is RcV else RcV(Obj(P, v))
        if short(p) == 'Vec':
            if v.__class__ in STRT: pass
            else: return P.un(v)
        if v.__class__ is Adt and v.p == p or v.__class__ is Sym and v.ty == p: return v
        return v if v.__class__ in (Opq,) else v
    if t['k'] in ('int', 'uint') and (v.__class__ is bool or v.__class__ is Sym and v.ty == 'bool'): return 1 if P.truth(v) else 0
    return v

@m('Into.into', 'From.from')
def _(P, a, d, dt, at): return convert(P, a[0], dt, d['n'])
@m('TryInto.try_into', 'TryFrom.try_from')
def _(P, a, d, dt, at):
    v = res(a[0])
    t = ty_of(P, dt)
    tt = P.prog.T[t['a'][0]] if t and t.get('p') == RESULT else None
    if tt and tt['k'] == 'char':
        if v.__class__ is int: return ok(v) if v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF else err(Opq(P, 'CharTryFromError'))
        k = ('tochar', P.key(v))
        if k not in P.memo:
            P.memo[k] = CSym(P, 'char(%s)' % vstr(P, v)) if P.choose(2, 'valid scalar value') == 0 else None
        return ok(P.memo[k]) if P.memo[k] is not None else err(Opq(P, 'CharTryFromError'))
    if tt and tt['k'] in ('int', 'uint') and v.__class__ in (int, Lin):
        from interp import RANGES
        lo, hi = RANGES[tt['n']]
        if P.ge0(ladd(v, lo, -1)) and P.ge0(ladd(hi, v, -1)): return ok(v)
        return err(Opq(P, 'TryFromIntError'))
    if tt and tt['k'] == 'adt':
        for im, k in P.prog.impls.get(('TryFrom', 'try_from'), []):
            st = P.prog.T[im['st']]
            if st['k'] == 'adt' and st['p'] == tt['p'] and k in P.prog.B: return P.call(k, [v])
    P.imp('try_from'); return P.fresh_t(dt, 'try_from') if dt is not None else Opq(P, 'try_from')
@m('AsRef.as_ref', 'Borrow.borrow', 'BorrowMut.borrow_mut', 'AsMut.as_mut')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    if v.__class__ in STRT: return v
    return toref(P, a[0])
@m('*.must_use', '*.identity', '*.black_box')
def _(P, a, d, dt, at): return a[0]
@m('mem.replace')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); v = P.rd(r); P.wr(r, a[1]); return v
@m('mem.take')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); v = P.rd(r)
    dd = default_of(P, dt) if dt is not None else NONE
    P.wr(r, dd); return v
@m('mem.swap')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); q = toref(P, a[1]); v = P.rd(r); P.wr(r, P.rd(q)); P.wr(q, v); return UNIT
@m('mem.drop', 'mem.forget', 'drop.drop', '*.drop')
def _(P, a, d, dt, at):
    P.drop(res(a[0])); return UNIT
@m('bool.then')
def _(P, a, d, dt, at): return some(P.callv(a[1], [])) if P.truth(a[0]) else NONE
@m('bool.then_some')
def _(P, a, d, dt, at): return some(a[1]) if P.truth(a[0]) else NONE
@m('Not.not')
def _(P, a, d, dt, at): return not P.truth(P.un(a[0]))

def arith(o):
    def f(P, a, d, dt, at):
        x, y = P.un(a[0]), P.un(a[1])
        if x.__class__ in STRT and o == 'Add': return cat((x, S(P, y)))
        return P.binop(o, x, y)
    return f
M['Add.add'] = arith('Add'); M['Sub.sub'] = arith('Sub'); M['BitAnd.bitand'] = arith('BitAnd')
M['BitOr.bitor'] = arith('BitOr'); M['BitXor.bitxor'] = arith('BitXor'); M['Mul.mul'] = arith('Mul'); M['Rem.rem'] = arith('Rem'); M['Div.div'] = arith('Div')
def arith_assign(o):
    def f(P, a, d, dt, at):
        r = toref(P, a[0]); x = P.rd(r); y = P.un(a[1])
        P.wr(r, cat((S(P, x), S(P, y))) if res(x).__class__ in STRT else P.binop(o, x, y)); return UNIT
    return f
M['AddAssign.add_assign'] = arith_assign('Add'); M['SubAssign.sub_assign'] = arith_assign('Sub')
M['BitOrAssign.bitor_assign'] = arith_assign('BitOr'); M['BitAndAssign.bitand_assign'] = arith_assign('BitAnd'); M['BitXorAssign.bitxor_assign'] = arith_assign('BitXor')

# ------------------------------------------------------------------ integers
def it_range(P, at, d):
    from interp import RANGES
    mm = re.search(r'<impl (\w+)>', d['p'])
    return RANGES[mm.group(1)] if mm and mm.group(1) in RANGES else (0, 2**64 - 1)
@m('int.saturating_sub', 'int.saturating_add')
def _(P, a, d, dt, at):
    lo, hi = it_range(P, at, d)
    r = ladd(res(a[0]), res(a[1]), -1 if d['n'].endswith('sub') else 1)
    if not P.ge0(ladd(r, lo, -1)): return lo
    if not P.ge0(ladd(hi, r, -1)): return hi
    return r
@m('int.checked_sub', 'int.checked_add')
def _(P, a, d, dt, at):
    lo, hi = it_range(P, at, d)
    r = ladd(res(a[0]), res(a[1]), -1 if d['n'].endswith('sub') else 1)
    if not P.ge0(ladd(r, lo, -1)) or not P.ge0(ladd(hi, r, -1)): return NONE
    return some(r)
@m('int.wrapping_add', 'int.wrapping_sub', 'int.overflowing_add', 'int.overflowing_sub')
def _(P, a, d, dt, at):
    lo, hi = it_range(P, at, d)
    r = ladd(res(a[0]), res(a[1]), -1 if d['n'].endswith('sub') else 1)
    o = False
    if not P.ge0(ladd(r, lo, -1)): r = ladd(r, hi - lo + 1); o = True
    elif not P.ge0(ladd(hi, r, -1)): r = ladd(r, -(hi - lo + 1)); o = True
    return Tup((r, o)) if d['n'].startswith('over') else r
@m('int.abs_diff')
def _(P, a, d, dt, at):
    x, y = res(a[0]), res(a[1])
    return ladd(x, y, -1) if P.ge0(ladd(x, y, -1)) else ladd(y, x, -1)
@m('int.from_str_radix')
def _(P, a, d, dt, at):
    k = ('radix', P.key(S(P, a[0])), P.key(a[1]))
    if k not in P.memo: P.memo[k] = P.fresh_t(dt, 'from_str_radix(%s)' % sstr(S(P, a[0])))
    return P.memo[k]

# ------------------------------------------------------------------ char
DIG = [(48, 57)]; LOW = [(97, 122)]; UP = [(65, 90)]
WS = [(9, 13), (32, 32), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029), (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)]
CSET = {'is_ascii_digit': DIG, 'is_ascii_lowercase': LOW, 'is_ascii_uppercase': UP, 'is_ascii_alphabetic': UP + LOW,
        'is_ascii_alphanumeric': DIG + UP + LOW, 'is_ascii_hexdigit': DIG + [(65, 70), (97, 102)], 'is_ascii': [(0, 127)],
        'is_whitespace': WS, 'is_control': [(0, 0x1F), (0x7F, 0x9F)], 'is_ascii_whitespace': [(9, 10), (12, 13), (32, 32)],
        'is_ascii_control': [(0, 31), (127, 127)], 'is_ascii_graphic': [(33, 126)], 'is_ascii_punctuation': [(33, 47), (58, 64), (91, 96), (123, 126)]}
def mkc(n):
    def f(P, a, d, dt, at):
        c = P.un(a[0])
        if c.__class__ in STRT:
            return str_all(P, c, lambda x: P.cin(x, CSET[n]))
        return P.cin(c, CSET[n])
    return f
for _n in CSET:
    M['char.' + _n] = mkc(_n); M['int.' + _n] = mkc(_n)
M['str.is_ascii'] = mkc('is_ascii')
def str_all(P, s, f):
    items = P.chars(s)
    while True:
        g, x, items = P.first(items)
        if not g: return True
        if not f(x): return False
@m('char.is_alphabetic', 'char.is_alphanumeric', 'char.is_numeric', 'char.is_uppercase', 'char.is_lowercase')
def _(P, a, d, dt, at):
    c = P.un(a[0])
    key = ('uni', d['n'])
    if key not in _uni: _uni[key] = uni_iv(d['n'])
    return P.cin(c, _uni[key])
_uni = {}
def uni_iv(n):
    import unicodedata
    f = {'is_alphabetic': lambda c: c.isalpha(), 'is_alphanumeric': lambda c: c.isalnum(), 'is_numeric': lambda c: c.isnumeric(),
         'is_uppercase': lambda c: c.isupper(), 'is_lowercase': lambda c: c.islower()}[n]
    out = []
    for i in range(0x110000):
        if 0xD800 <= i < 0xE000: continue
        if f(chr(i)):
            if out and out[-1][1] == i - 1: out[-1][1] = i
            else: out.append([i, i])
    return [tuple(x) for x in out]
@m('char.is_digit')
def _(P, a, d, dt, at):
    r = res(a[1])
    iv = [(48, 47 + min(r, 10))] + ([(65, 54 + r), (97, 86 + r)] if r > 10 else [])
    return P.cin(P.un(a[0]), iv[:1] if r <= 10 else [(48, 57), (65, 65 + r - 11), (97, 97 + r - 11)])
@m('char.len_utf8')
def _(P, a, d, dt, at): return P.fix_width(P.un(a[0]))
@m('char.eq_ignore_ascii_case', 'int.eq_ignore_ascii_case')
def _(P, a, d, dt, at):
    x, y = P.un(a[0]), P.un(a[1])
    if x.__class__ is int: x, y = y, x
    if y.__class__ is int:
        ys = {y}
        if chr(y).isascii() and chr(y).isalpha(): ys = {ord(chr(y).lower()), ord(chr(y).upper())}
        return P.cin(x, [(v, v) for v in sorted(ys)])
    P.imp('char eq_ignore_ascii_case'); return P.memo_bool(('ceqi', P.key(x), P.key(y)), 'eqi')
@m('char.to_ascii_lowercase', 'char.to_ascii_uppercase')
def _(P, a, d, dt, at):
    c = P.un(a[0])
    lo = d['n'].endswith('lowercase')
    if P.cin(c, UP if lo else LOW):
        if c.__class__ is int: return c + 32 if lo else c - 32
        k = ('casec', c.id, lo)
        if k not in P.memo: P.memo[k] = CSym(P, 'case(%s)' % c.name, [(x + 32, y + 32) if lo else (x - 32, y - 32) for x, y in c.iv])
        return P.memo[k]
    return c
@m('char.from_u32', 'char.from_digit')
def _(P, a, d, dt, at):
    v = res(a[0])
    if v.__class__ is int: return some(v) if v <= 0x10FFFF and not 0xD800 <= v <= 0xDFFF else NONE
    if v.__class__ is CSym: return some(v)
    k = ('tochar', P.key(v))
    if k not in P.memo: P.memo[k] = CSym(P, 'char(%s)' % vstr(P, v)) if P.choose(2, 'valid scalar value') == 0 else None
    return some(P.memo[k]) if P.memo[k] is not None else NONE

# ------------------------------------------------------------------ Deref / Index / Rc / Weak / RefCell
def deref(P, v):
    v = res(v)
    if v.__class__ in STRT: return v
    if v.__class__ is not Ref:
        if v.__class__ is Guard: return Ref(v.rc.c, v.p)
        return v
    x = res(P.rd(v))
    if x.__class__ in STRT: return x
    if x.__class__ is RcV: return Ref(x.o.c)
    if x.__class__ is Guard: return Ref(x.rc.c, x.p)
    if x.__class__ is Ref: return x            # Box
    return v                                   # Vec -> slice
@m('Deref.deref', 'DerefMut.deref_mut')
def _(P, a, d, dt, at): return deref(P, a[0])
@m('Rc.new')
def _(P, a, d, dt, at): return RcV(Obj(P, a[0]))
@m('Box.new', 'Box.pin')
def _(P, a, d, dt, at): return Ref(Cell(a[0]))
@m('Rc.downgrade')
def _(P, a, d, dt, at): return WeakV(P.un(a[0]).o)
@m('Rc.ptr_eq', 'Weak.ptr_eq')
def _(P, a, d, dt, at): return P.un(a[0]).o is P.un(a[1]).o
@m('Rc.as_ptr', 'Weak.as_ptr')
def _(P, a, d, dt, at):
    o = P.un(a[0]).o
    return Ref(o.c) if o is not None else Opq(P, 'dangling')
def same_place(P, x, y):
    """do two pointers denote the same place?"""
    x, y = res(x), res(y)
    if x.__class__ is Ref and y.__class__ is Ref:
        if x.c is y.c and x.p == y.p: return True
        if x.c is y.c or any(s.__class__ is tuple for s in x.p + y.p): P.imp('comparison of pointers into one value')
        return False
    P.imp('comparison of pointers')
    return P.choose(2, 'pointers equal') == 0
@m('ptr.eq', 'ptr.addr_eq')
def _(P, a, d, dt, at): return same_place(P, a[0], a[1])
@m('Rc.strong_count', 'Rc.weak_count')
def _(P, a, d, dt, at): P.imp('reference count'); return P.fresh_t(dt, d['n'])
@m('Rc.try_unwrap')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    return ok(v.o.c.v) if P.memo_bool(('unique', v.o.id), '%s is uniquely owned' % v.o.name) else err(v)
@m('Rc.as_ref')
def _(P, a, d, dt, at): return Ref(P.un(a[0]).o.c)
@m('Rc.clone')
def _(P, a, d, dt, at): return P.un(a[0])
@m('Weak.new')
def _(P, a, d, dt, at): return WeakV(None)
@m('Weak.upgrade')
def _(P, a, d, dt, at):
    w = P.un(a[0])
    if w.__class__ is Opq: P.imp('opaque weak'); return NONE
    if w.o is None: return NONE
    if w.o.dead is True: return NONE
    P.events.append(('upgrade', w.o, P.where()))
    return some(RcV(w.o))
@m('Weak.strong_count')
def _(P, a, d, dt, at): P.imp('reference count'); return P.fresh_t(dt, d['n'])
@m('RefCell.new', 'Cell.new')
def _(P, a, d, dt, at): return RCell(P, a[0])
@m('RefCell.into_inner', 'Cell.into_inner')
def _(P, a, d, dt, at):
    v = res(a[0]); return v.c.v
def rcell(P, v):
    v = P.un(v)
    if v.__class__ is RcV: v = res(v.o.c.v)
    if v.__class__ is not RCell: raise EngineError('RefCell expected: %s' % v.__class__.__name__)
    return v
def caller(P):
    # the borrow is attributed to the innermost frame outside the RcRefCell wrapper
    for f in reversed(P.frames):
        if 'rc_cell' not in f.key: return '%s (%s:%s)' % (f.key, f.span[0], f.span[1])
    return P.where()
@m('RefCell.borrow', 'RefCell.try_borrow')
def _(P, a, d, dt, at):
    c = rcell(P, a[0])
    if c.wr:
        if d['n'] == 'try_borrow': return err(Opq(P, 'BorrowError'))
        P.panic('already mutably borrowed (by %s)' % ', '.join(g.at for g in c.by), 'borrow')
    g = Guard(P, c, False, (), caller(P)); c.rd += 1; c.by.append(g)
    return g if d['n'] == 'borrow' else ok(g)
@m('RefCell.borrow_mut', 'RefCell.try_borrow_mut')
def _(P, a, d, dt, at):
    c = rcell(P, a[0])
    if c.wr or c.rd:
        if d['n'] == 'try_borrow_mut': return err(Opq(P, 'BorrowMutError'))
        P.panic('already borrowed (by %s)' % ', '.join(g.at for g in c.by), 'borrow')
    g = Guard(P, c, True, (), caller(P)); c.wr += 1; c.by.append(g)
    return g if d['n'] == 'borrow_mut' else ok(g)
@m('RefCell.replace', 'Cell.replace')
def _(P, a, d, dt, at):
    c = rcell(P, a[0])
    if c.wr or c.rd: P.panic('already borrowed', 'borrow')
    r = Ref(c.c); v = P.rd(r); P.wr(r, a[1]); return v
@m('RefCell.get_mut', 'RefCell.as_ptr')
def _(P, a, d, dt, at): return Ref(rcell(P, a[0]).c)
@m('Cell.get')
def _(P, a, d, dt, at): return rcell(P, a[0]).c.v
@m('Cell.set')
def _(P, a, d, dt, at): P.wr(Ref(rcell(P, a[0]).c), a[1]); return UNIT
@m('Ref.map', 'RefMut.map')
def _(P, a, d, dt, at):
    g = res(a[0])
    r = res(P.callv(a[1], [Ref(g.rc.c, g.p)]))
    if r.__class__ is Ref and r.c is g.rc.c:
        h = Guard(P, g.rc, g.mut, r.p, g.at)
        g.live = False
        if g in g.rc.by: g.rc.by.remove(g)
        g.rc.by.append(h)
        return h
    P.imp('Ref::map'); return g
@m('Ref.clone')
def _(P, a, d, dt, at):
    g = P.un1(a[0]); h = Guard(P, g.rc, g.mut, g.p, g.at); g.rc.rd += 1; g.rc.by.append(h); return h
@m('Drop.drop')
def _(P, a, d, dt, at): return UNIT

def rng(P, v):
    """(lo, hi or None, inclusive)"""
    v = P.un(v)
    n = short(v.p) if v.__class__ is Adt else v.__class__.__name__
    if n == 'RangeFrom': return v.f[0], None, False
    if n == 'RangeFull': return 0, None, False
    if n == 'RangeTo': return 0, v.f[0], False
    if n == 'Range': return v.f[0], v.f[1], False
    if n == 'RangeInclusive': return v.f[0], v.f[1], True
    if n == 'RangeToInclusive': return 0, v.f[0], True
    raise EngineError('range %s' % n)
@m('RangeInclusive.new')
def _(P, a, d, dt, at): return Adt('std::ops::RangeInclusive', 0, (a[0], a[1], False))
@m('RangeInclusive.contains', 'Range.contains', 'RangeFrom.contains', 'RangeTo.contains', 'RangeToInclusive.contains', 'RangeBounds.contains')
def _(P, a, d, dt, at):
    lo, hi, inc = rng(P, a[0]); x = P.un(a[1])
    lo = P.un(lo); hi = P.un(hi) if hi is not None else None
    if x.__class__ is CSym and lo.__class__ is int and (hi is None or hi.__class__ is int):
        h = 0x10FFFF if hi is None else hi if inc else hi - 1
        return lo <= h and P.cin(x, [(lo, h)])
    if x.__class__ in (int, Lin):
        if not P.ge0(ladd(x, lo, -1)): return False
        return hi is None or P.ge0(ladd(ladd(hi, x, -1), 0 if inc else -1))
    P.imp('range contains'); return P.choose(2, 'range contains') == 0
@m('RangeInclusive.start')
def _(P, a, d, dt, at): return refto(P.un(a[0]).f[0])
@m('RangeInclusive.end')
def _(P, a, d, dt, at): return refto(P.un(a[0]).f[1])

@m('Index.index', 'IndexMut.index_mut')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    if v.__class__ in STRT:
        lo, hi, inc = rng(P, a[1])
        if hi is not None and inc: hi = ladd(res(hi), 1)
        return P.s_slice(v, res(lo), res(hi) if hi is not None else None)
    if v.__class__ is MapV:
        i, v = P.map_lookup(v, a[1])
        if i is None: P.panic('no entry found for key', 'index')
        r = toref(P, a[0]); return Ref(r.c, r.p + (('mv', i),))
    if v.__class__ is Seq:
        ix = P.un(a[1])
        r = toref(P, a[0])
        if ix.__class__ in (int, Lin):
            it, k = P.locate(v.i, ix)
            if k is None: P.panic('index out of bounds', 'bounds')
            setseq(P, r, it)
            return Ref(r.c, r.p + (('i', k),))
        lo, hi, inc = rng(P, ix)
        if hi is not None and inc: hi = ladd(res(hi), 1)
        if d['n'] == 'index_mut':
            x = mut_slice(P, r, v.i, res(lo), res(hi) if hi is not None else None)
            if x is None: P.panic('slice index out of range', 'bounds')
            return x
        x = seq_slice(P, v.i, res(lo), res(hi) if hi is not None else None)
        if x is None: P.panic('slice index out of range', 'bounds')
        return Ref(Cell(Seq(x)))
    P.imp('index of %s' % v.__class__.__name__)
    return Opq(P, 'index')

def setseq(P, r, items):
    """store an equivalent (more materialised) representation: not a write of the program"""
    r.c.v = P.setp(r.c.v, r.p, Seq(items)) if r.p else Seq(items)

def mut_slice(P, r, items, lo, hi):
    """a place within the list at r: its elements lo..hi"""
    it, k = P.locate(items, lo, True)
    if k is None: return None
    if hi is None: setseq(P, r, it); return Ref(r.c, r.p + (('sl', k, None),))
    n = ladd(hi, lo, -1)
    if not P.ge0(n): return None
    it2, k2 = P.locate(it[k:], n, True)
    if k2 is None: return None
    setseq(P, r, it[:k] + it2)
    return Ref(r.c, r.p + (('sl', k, k + k2),))

def seq_slice(P, items, lo, hi):
    it, k = P.locate(items, lo, True)
    if k is None: return None
    pre, post = it[:k], it[k:]
    if hi is None: return post
    n = ladd(hi, lo, -1)
    if not P.ge0(n): return None
    it2, k2 = P.locate(post, n, True)
    if k2 is None: return None
    return it2[:k2]

# ------------------------------------------------------------------ Vec / slice
def seqof(P, v):
    s = P.un(v)
    if s.__class__ is Opq:
        P.imp('opaque sequence'); return Seq(())
    if s.__class__ is not Seq: raise EngineError('sequence expected: %s' % s.__class__.__name__)
    return s
def vw(P, r, items): P.wr(toref(P, r), Seq(tuple(items)))

@m('Vec.new', 'Vec.with_capacity', 'VecDeque.new')
def _(P, a, d, dt, at): return Seq(())
@m('*.box_assume_init_into_vec_unsafe', '*.into_vec', 'slice.into_vec')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    while v.__class__ is Adt and len(v.f) >= 1: v = res(v.f[-1]) if res(v.f[-1]).__class__ is not Tup else res(v.f[0])
    return v
@m('Box.new_uninit')
def _(P, a, d, dt, at): return Ref(Cell(UNINIT))
@m('Box.assume_init', 'Box.write')
def _(P, a, d, dt, at):
    if d['n'] == 'write': P.wr(res(a[0]), a[1])
    return a[0]
@m('Vec.push', 'VecDeque.push_back')
def _(P, a, d, dt, at): vw(P, a[0], seqof(P, a[0]).i + (a[1],)); return UNIT
@m('VecDeque.push_front')
def _(P, a, d, dt, at): vw(P, a[0], (a[1],) + seqof(P, a[0]).i); return UNIT
@m('Vec.pop', 'VecDeque.pop_back')
def _(P, a, d, dt, at):
    f, x, rest = P.last(seqof(P, a[0]).i)
    if not f: return NONE
    vw(P, a[0], rest); return some(x)
@m('VecDeque.pop_front')
def _(P, a, d, dt, at):
    f, x, rest = P.first(seqof(P, a[0]).i)
    if not f: return NONE
    vw(P, a[0], rest); return some(x)
@m('Vec.insert')
def _(P, a, d, dt, at):
    it, k = P.locate(seqof(P, a[0]).i, res(a[1]), True)
    if k is None: P.panic('insertion index out of range', 'bounds')
    vw(P, a[0], it[:k] + (a[2],) + it[k:]); return UNIT
@m('Vec.remove', 'Vec.swap_remove')
def _(P, a, d, dt, at):
    it, k = P.locate(seqof(P, a[0]).i, res(a[1]))
    if k is None: P.panic('removal index out of range', 'bounds')
    x = it[k]
    if d['n'] == 'remove': vw(P, a[0], it[:k] + it[k+1:])
    else:
        rest = it[k+1:]
        f, y, r2 = P.last(rest)
        vw(P, a[0], it[:k] + ((y,) + tuple(r2) if f else ()))
    return x
@m('Vec.clear', 'String.clear', 'HashMap.clear')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    P.wr(toref(P, a[0]), Seq(()) if v.__class__ is Seq else '' if v.__class__ in STRT else MapV((), None)); return UNIT
@m('Vec.truncate')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); n = res(a[1])
    x = seq_slice(P, s.i, 0, n)
    if x is not None: vw(P, a[0], x)
    return UNIT
@m('Vec.split_off')
def _(P, a, d, dt, at):
    it, k = P.locate(seqof(P, a[0]).i, res(a[1]), True)
    if k is None: P.panic('split_off index out of range', 'bounds')
    vw(P, a[0], it[:k]); return Seq(it[k:])
@m('Vec.append')
def _(P, a, d, dt, at):
    x = seqof(P, a[0]).i; y = seqof(P, a[1]).i
    vw(P, a[0], x + y); vw(P, a[1], ()); return UNIT
@m('Vec.extend_from_slice')
def _(P, a, d, dt, at):
    y = clone(P, seqof(P, a[1])); vw(P, a[0], seqof(P, a[0]).i + y.i); return UNIT
@m('Vec.drain')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); lo, hi, inc = rng(P, a[1])
    if hi is not None and inc: hi = ladd(res(hi), 1)
    it, k = P.locate(s.i, res(lo), True)
    if k is None: P.panic('drain range out of range', 'bounds')
    pre, post = it[:k], it[k:]
    if hi is None: mid, post = post, ()
    else:
        it2, k2 = P.locate(post, ladd(res(hi), res(lo), -1), True)
        if k2 is None: P.panic('drain range out of range', 'bounds')
        mid, post = it2[:k2], it2[k2:]
    vw(P, a[0], pre + post)
    return It('items', tuple(mid))
@m('Vec.splice')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); lo, hi, inc = rng(P, a[1])
    if hi is not None and inc: hi = ladd(res(hi), 1)
    it, k = P.locate(s.i, res(lo), True)
    if k is None: P.panic('splice range out of range', 'bounds')
    pre, post = it[:k], it[k:]
    if hi is None: mid, post = post, ()
    else:
        it2, k2 = P.locate(post, ladd(res(hi), res(lo), -1), True)
        if k2 is None: P.panic('splice range out of range', 'bounds')
        mid, post = it2[:k2], it2[k2:]
    new = tuple(drain_it(P, as_it(P, a[2])))
    vw(P, a[0], pre + new + post)
    return It('items', tuple(mid))
@m('Vec.retain', 'Vec.retain_mut')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); out = []; items = s.i
    keep = lambda x: P.truth(P.callv(a[1], [refto(x)]))
    pure = pure_fn(P, a[1]); drops = 0
    while True:
        items = flat_items(items)
        if not items: break
        x = items[0]
        if x.__class__ is Gap and pure:
            # the elements up to the first dropped one stay a segment
            e, n = P.gap_empty_options(x)
            if not n: x.bound = (); continue
            if P.choose(2, '%s: no element is dropped / first dropped' % x.name) == 0:
                x.facts = x.facts + ((lambda path, el: keep(el)),)
                out.append(x); items = items[1:]; continue
            if drops >= P.cfg.K: P.bounded = True; raise Cut()
            drops += 1
            g1 = P.gap_new(x); g1.facts = x.facts + ((lambda path, el: keep(el)),); g2 = P.gap_new(x)
            el = P.gap_elem(x, 'mid')
            x.bound = (g1, el, g2)
            if keep(el): raise Prune()
            out.append(g1); items = (g2,) + tuple(items[1:]); continue
        f, x, items = P.first(items)
        if not f: break
        if keep(x): out.append(x)
    vw(P, a[0], out); return UNIT
@m('Vec.dedup')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); out = []; items = s.i
    while True:
        f, x, items = P.first(items)
        if not f: break
        if out and P.veq(out[-1], x): continue
        out.append(x)
    vw(P, a[0], out); return UNIT
@m('Vec.reserve', 'String.reserve', 'Vec.shrink_to_fit', 'String.shrink_to_fit', 'HashMap.reserve')
def _(P, a, d, dt, at): return UNIT
@m('Vec.as_slice', 'Vec.as_mut_slice', 'slice.as_ref', 'Vec.into_boxed_slice', 'String.into_boxed_str', 'slice.as_slice')
def _(P, a, d, dt, at): return a[0] if d['n'].startswith('into') else toref(P, a[0]) 
@m('Vec.len', 'slice.len', 'VecDeque.len')
def _(P, a, d, dt, at): return items_len(seqof(P, a[0]).i)
@m('Vec.is_empty', 'slice.is_empty', 'VecDeque.is_empty')
def _(P, a, d, dt, at): return P.is_empty_items(seqof(P, a[0]).i)
@m('slice.first', 'VecDeque.front')
def _(P, a, d, dt, at):
    f, x, r = P.first(seqof(P, a[0]).i)
    return some(refto(x)) if f else NONE
@m('slice.last', 'VecDeque.back')
def _(P, a, d, dt, at):
    f, x, r = P.last(seqof(P, a[0]).i)
    return some(refto(x)) if f else NONE
@m('slice.first_mut', 'slice.last_mut', 'VecDeque.front_mut', 'VecDeque.back_mut')
def _(P, a, d, dt, at):
    r = toref(P, a[0])
    if d['n'] in ('first_mut', 'front_mut'):
        f, x, rest = P.first(seqof(P, a[0]).i)
        it = (x,) + tuple(rest) if f else (); k = 0
    else:
        f, x, rest = P.last(seqof(P, a[0]).i)
        it = tuple(rest) + (x,) if f else (); k = len(it) - 1
    setseq(P, r, it)
    return some(Ref(r.c, r.p + (('i', k),))) if f else NONE
@m('slice.split_first')
def _(P, a, d, dt, at):
    f, x, r = P.first(seqof(P, a[0]).i)
    return some(Tup((refto(x), Ref(Cell(Seq(r)))))) if f else NONE
@m('slice.split_last')
def _(P, a, d, dt, at):
    f, x, r = P.last(seqof(P, a[0]).i)
    return some(Tup((refto(x), Ref(Cell(Seq(r)))))) if f else NONE
@m('slice.split_at')
def _(P, a, d, dt, at):
    it, k = P.locate(seqof(P, a[0]).i, res(a[1]), True)
    if k is None: P.panic('split_at out of range', 'bounds')
    return Tup((Ref(Cell(Seq(it[:k]))), Ref(Cell(Seq(it[k:])))))
@m('slice.get', 'slice.get_mut', 'VecDeque.get')
def _(P, a, d, dt, at):
    s = seqof(P, a[0]); ix = P.un(a[1])
    if ix.__class__ in (int, Lin):
        it, k = P.locate(s.i, ix)
        if k is None: return NONE
        r = toref(P, a[0]); setseq(P, r, it)
        return some(refto(it[k]) if d['n'] == 'get' else Ref(r.c, r.p + (('i', k),)))
    lo, hi, inc = rng(P, ix)
    if hi is not None and inc: hi = ladd(res(hi), 1)
    x = seq_slice(P, s.i, res(lo), res(hi) if hi is not None else None)
    return NONE if x is None else some(Ref(Cell(Seq(x))))
@m('slice.contains', 'VecDeque.contains')
def _(P, a, d, dt, at):
    items = seqof(P, a[0]).i
    x0 = P.un(a[1])
    if x0.__class__ is CSym and all(y.__class__ is int for y in items):
        return P.cin(x0, iv_union([(y, y) for y in items]))
    return seg_search(P, It('items', items), lambda x: P.veq(x, a[1]), True)[0]
@m('slice.iter', 'VecDeque.iter')
def _(P, a, d, dt, at): return as_it(P, a[0])
@m('slice.iter_mut', 'VecDeque.iter_mut')
def _(P, a, d, dt, at): return iter_mut(P, a[0])
@m('slice.to_vec')
def _(P, a, d, dt, at): return clone(P, seqof(P, a[0]))
@m('slice.reverse')
def _(P, a, d, dt, at): vw(P, a[0], tuple(reversed(P.force(seqof(P, a[0]).i)))); return UNIT
@m('slice.swap')
def _(P, a, d, dt, at):
    it = list(P.force(seqof(P, a[0]).i)); i, j = res(a[1]), res(a[2])
    if i.__class__ is not int or j.__class__ is not int or max(i, j) >= len(it):
        P.imp('swap'); return UNIT
    it[i], it[j] = it[j], it[i]; vw(P, a[0], it); return UNIT
@m('slice.join', 'slice.concat')
def _(P, a, d, dt, at):
    parts = P.force(seqof(P, a[0]).i); out = []
    sep = S(P, a[1]) if len(a) > 1 else ''
    for i, x in enumerate(parts):
        if i and sep != '': out.append(sep)
        out.append(S(P, x))
    return cat(out)
@m('slice.starts_with')
def _(P, a, d, dt, at):
    x = seqof(P, a[0]).i; y = P.force(seqof(P, a[1]).i)
    for e in y:
        f, v, x = P.first(x)
        if not f or not P.veq(v, e): return False
    return True

# ------------------------------------------------------------------ iterators
def as_it(P, v):
    v0 = res(v)
    if v0.__class__ is It: return v0
    if v0.__class__ is Seq: return It('items', v0.i)
    if v0.__class__ is MapV: return It('map', v0, None)
    if v0.__class__ is Adt and v0.p == OPTION or v0.__class__ is Sym and v0.ty == OPTION:
        o = opt(P, v0); return It('items', () if o is None else o)
    if v0.__class__ is Adt and short(v0.p) in ('Range', 'RangeInclusive', 'RangeFrom'):
        lo, hi, inc = rng(P, v0)
        return It('range', res(lo), (ladd(res(hi), 1) if inc else res(hi)) if hi is not None else None)
    if v0.__class__ in (Ref, Guard):
        r = toref(P, v0); x = res(P.rd(r))
        if x.__class__ is Seq: return It('refs', x.i)
        if x.__class__ is MapV: return It('map', x, r)
        if x.__class__ is It: return It('byref', r)
        if x.__class__ in (Adt, Sym) and (x.p if x.__class__ is Adt else x.ty) == OPTION:
            o = optref(P, r); return It('items', () if o is None else (o,))
        if x.__class__ is Adt:
            if P.local_impl('Iterator', 'next', x.p): return It('local', r)
            k = P.local_impl('IntoIterator', 'into_iter', x.p)
            if k: return as_it(P, P.call(k, [v0]))
        if x.__class__ is Opq: P.imp('opaque iterator'); return It('items', ())
    if v0.__class__ is Adt:
        if P.local_impl('Iterator', 'next', v0.p): return It('local', Ref(Cell(v0)))
        k = P.local_impl('IntoIterator', 'into_iter', v0.p)
        if k: return as_it(P, P.call(k, [v0]))
    if v0.__class__ is Opq: P.imp('opaque iterator'); return It('items', ())
    raise EngineError('iterator over %s' % v0.__class__.__name__)

def inext(P, it):
    """(found, value, iterator')"""
    k = it.k; d = it.d
    if k in ('items', 'refs', 'chars'):
        f, x, rest = P.first(d[0])
        if not f: return False, None, It(k, ())
        return True, (refto(x) if k == 'refs' else x), It(k, rest)
    if k == 'map':
        mm = P.map_flat(d[0])
        start = d[2] if len(d) > 2 else 0
        while start >= len(mm.e) and mm.g is not None:
            P.mg_take(mm.g); mm = P.map_flat(mm)
        if start >= len(mm.e): return False, None, it
        kk, x = mm.e[start]
        if x is UNIT: val = refto(kk) if d[1] is not None else kk        # a set
        elif d[1] is not None: val = Tup((refto(kk), Ref(d[1].c, d[1].p + (('mv', start),))))
        else: val = Tup((kk, x))
        return True, val, It('map', mm, d[1], start + 1)
    if k == 'keys':
        f, x, i2 = inext(P, d[0]); return f, (P.getf(x, 0) if f else None), It(k, i2)
    if k == 'values':
        f, x, i2 = inext(P, d[0]); return f, (P.getf(x, 1) if f else None), It(k, i2)
    if k == 'local':
        key = P.local_impl('Iterator', 'next', res(P.rd(d[0])).p)
        o = opt(P, P.call(key, [d[0]]))
        return (False, None, it) if o is None else (True, o[0], it)
    if k == 'byref':
        f, x, i2 = inext(P, res(P.rd(d[0])))
        d[0].c.v = P.setp(d[0].c.v, d[0].p, i2) if d[0].p else i2
        return f, x, it
    if k == 'range':
        lo, hi = d
        if hi is not None and not P.ge0(ladd(ladd(hi, lo, -1), -1), 'range not exhausted'): return False, None, it
        return True, lo, It(k, ladd(lo, 1), hi)
    if k == 'map_':
        f, x, i2 = inext(P, d[0])
        if not f: return False, None, It(k, i2, d[1])
        return True, P.callv(d[1], [x]), It(k, i2, d[1])
    if k == 'inspect':
        f, x, i2 = inext(P, d[0])
        if f: P.callv(d[1], [refto(x)])
        return f, x, It(k, i2, d[1])
    if k == 'filter':
        i2 = d[0]
        while True:
            f, x, i2 = inext(P, i2)
            if not f: return False, None, It(k, i2, d[1])
            if P.truth(P.callv(d[1], [refto(x) if res(x).__class__ not in STRT and res(x).__class__ is not Ref else Ref(Cell(x))])): return True, x, It(k, i2, d[1])
    if k == 'filter_map':
        i2 = d[0]
        while True:
            f, x, i2 = inext(P, i2)
            if not f: return False, None, It(k, i2, d[1])
            o = opt(P, P.callv(d[1], [x]))
            if o is not None: return True, o[0], It(k, i2, d[1])
    if k == 'enumerate':
        f, x, i2 = inext(P, d[0])
        return f, (Tup((d[1], x)) if f else None), It(k, i2, d[1] + 1)
    if k == 'cloned':
        f, x, i2 = inext(P, d[0])
        return f, (clone(P, P.un1(x)) if f else None), It(k, i2)
    if k == 'rev':
        f, x, i2 = iback(P, d[0]); return f, x, It(k, i2)
    if k == 'chain':
        a, b = d
        if a is not None:
            f, x, a2 = inext(P, a)
            if f: return True, x, It(k, a2, b)
        f, x, b2 = inext(P, b)
        return f, x, It(k, None, b2)
    if k == 'zip':
        f, x, a2 = inext(P, d[0])
        if not f: return False, None, it
        g, y, b2 = inext(P, d[1])
        if not g: return False, None, It(k, a2, b2)
        return True, Tup((x, y)), It(k, a2, b2)
    if k == 'skip':
        i2 = d[0]; n = res(d[1])
        while True:
            if n.__class__ is int and n <= 0: break
            if n.__class__ is Lin and not P.ge0(ladd(n, -1)): break
            f, x, i2 = inext(P, i2)
            if not f: return False, None, It(k, i2, 0)
            n = ladd(n, -1)
        f, x, i2 = inext(P, i2)
        return f, x, It(k, i2, 0)
    if k == 'take':
        n = res(d[1])
        if not P.ge0(ladd(n, -1)): return False, None, it
        f, x, i2 = inext(P, d[0])
        return f, x, It(k, i2, ladd(n, -1))
    if k == 'step_by':
        f, x, i2 = inext(P, d[0])
        if not f: return False, None, it
        for _ in range(res(d[1]) - 1):
            g, y, i2 = inext(P, i2)
        return True, x, It(k, i2, d[1])
    if k == 'take_while':
        if d[2]: return False, None, it
        f, x, i2 = inext(P, d[0])
        if f and P.truth(P.callv(d[1], [Ref(Cell(x))])): return True, x, It(k, i2, d[1], False)
        return False, None, It(k, i2, d[1], True)
    if k == 'map_while':
        f, x, i2 = inext(P, d[0])
        if f:
            o = opt(P, P.callv(d[1], [x]))
            if o is not None: return True, o[0], It(k, i2, d[1])
        return False, None, It('items', ())
    if k == 'skip_while':
        i2 = d[0]
        if d[2]:
            f, x, i2 = inext(P, i2); return f, x, It(k, i2, d[1], True)
        while True:
            f, x, i2 = inext(P, i2)
            if not f: return False, None, It(k, i2, d[1], True)
            if not P.truth(P.callv(d[1], [Ref(Cell(x))])): return True, x, It(k, i2, d[1], True)
    if k == 'peek':
        if d[1] is not None:
            f, x = d[1]; return f, x, It(k, d[0], None)
        f, x, i2 = inext(P, d[0]); return f, x, It(k, i2, None)
    if k == 'flat':
        inner, it0 = d
        while True:
            if inner is not None:
                f, x, inner = inext(P, inner)
                if f: return True, x, It(k, inner, it0)
            f, x, it0 = inext(P, it0)
            if not f: return False, None, It(k, None, it0)
            inner = as_it(P, x)
    if k == 'fuse':
        f, x, i2 = inext(P, d[0]); return f, x, It(k, i2)
    if k == 'scan':
        f, x, i2 = inext(P, d[0])
        if not f: return False, None, it
        o = opt(P, P.callv(d[2], [d[1], x]))
        return (False, None, It('items', ())) if o is None else (True, o[0], It(k, i2, d[1], d[2]))
    if k == 'successors':
        o = d[0]
        if o is None: return False, None, it
        nx = opt(P, P.callv(d[1], [refto(o[0])]))
        return True, o[0], It(k, nx, d[1])
    if k == 'from_fn':
        o = opt(P, P.callv(d[0], []))
        return (False, None, it) if o is None else (True, o[0], it)
    if k == 'repeat':
        return True, clone(P, d[0]), it
    if k == 'char_indices':
        f, x, i2 = P.first(d[0])
        if not f: return False, None, it
        w = P.fix_width(x)
        return True, Tup((d[1], x)), It(k, i2, ladd(d[1], w))
    if k == 'split':
        return split_next(P, it)
    raise EngineError('iterator kind ' + k)

def iback(P, it):
    k = it.k; d = it.d
    if k in ('items', 'refs', 'chars'):
        f, x, rest = P.last(d[0])
        if not f: return False, None, It(k, ())
        return True, (refto(x) if k == 'refs' else x), It(k, rest)
    if k == 'range':
        lo, hi = d
        if not P.ge0(ladd(ladd(hi, lo, -1), -1)): return False, None, it
        h = ladd(hi, -1)
        return True, h, It(k, lo, h)
    if k in ('map_', 'cloned', 'filter', 'inspect'):
        i2 = d[0]
        while True:
            f, x, i2 = iback(P, i2)
            if not f: return False, None, it
            if k == 'map_': return True, P.callv(d[1], [x]), It(k, i2, d[1])
            if k == 'cloned': return True, clone(P, P.un1(x)), It(k, i2)
            if k == 'inspect': P.callv(d[1], [refto(x)]); return True, x, It(k, i2, d[1])
            if P.truth(P.callv(d[1], [Ref(Cell(x))])): return True, x, It(k, i2, d[1])
    if k == 'rev':
        f, x, i2 = inext(P, d[0]); return f, x, It(k, i2)
    if k == 'chain':
        f, x, b2 = iback(P, d[1])
        if f: return True, x, It(k, d[0], b2)
        if d[0] is None: return False, None, it
        f, x, a2 = iback(P, d[0]); return f, x, It(k, a2, It('items', ()))
    if k == 'enumerate':
        n = it_len(P, d[0])
        f, x, i2 = iback(P, d[0])
        return f, (Tup((ladd(ladd(d[1], n), -1), x)) if f else None), It(k, i2, d[1])
    if k == 'byref':
        f, x, i2 = iback(P, res(P.rd(d[0])))
        d[0].c.v = P.setp(d[0].c.v, d[0].p, i2) if d[0].p else i2
        return f, x, it
    # general: exhaust
    xs = list(drain_it(P, it))
    return (True, xs[-1], It('items', tuple(xs[:-1]))) if xs else (False, None, It('items', ()))

def it_len(P, it):
    if it.k in ('items', 'refs', 'chars'): return items_len(it.d[0])
    if it.k in ('map_', 'enumerate', 'cloned', 'rev', 'inspect', 'keys', 'values'): return it_len(P, it.d[0])
    if it.k == 'map':
        mm = P.map_flat(it.d[0]); n = len(mm.e) - (it.d[2] if len(it.d) > 2 else 0)
        return ladd(n, Lin(0, {mm.g.var: 1})) if mm.g is not None else n
    if it.k == 'range' and it.d[1] is not None:
        n = ladd(it.d[1], it.d[0], -1)
        return n if P.ge0(n) else 0
    return None

def drain_it(P, it):
    while True:
        f, x, it = inext(P, it)
        if not f: return
        yield x

def consume(P, a0):
    """iterator value and a function storing the advanced iterator back when it was passed by reference"""
    v = res(a0)
    if v.__class__ is Ref:
        r = toref(P, v); x = res(P.rd(r))
        if x.__class__ is It:
            def back(i2):
                r.c.v = P.setp(r.c.v, r.p, i2) if r.p else i2
            return x, back
        if x.__class__ is Adt and short(x.p) in ('Range', 'RangeInclusive'):
            def back2(i2):
                lo, hi = i2.d
                nv = Adt(x.p, x.vi, (lo, hi if short(x.p) == 'Range' else ladd(hi, -1)) + x.f[2:])
                r.c.v = P.setp(r.c.v, r.p, nv) if r.p else nv
            return as_it(P, x), back2
    return as_it(P, v), lambda i2: None

@m('IntoIterator.into_iter', '*.into_iter', 'Vec.into_iter', '*.by_ref')
def _(P, a, d, dt, at):
    if d['n'] == 'by_ref': return a[0]
    v = res(a[0])
    if v.__class__ is Adt and short(v.p) in ('Range', 'RangeInclusive', 'RangeFrom'): return as_it(P, v)
    if v.__class__ is Ref and at and P.prog.T[at[0]]['k'] == 'ref' and P.prog.T[at[0]].get('m') and P.un1(v).__class__ is Seq: return iter_mut(P, v)
    return as_it(P, a[0])
def iter_mut(P, v):
    r = toref(P, v); s = P.un(v)
    if s.__class__ is not Seq: return as_it(P, v)
    it = tuple(P.force(s.i)); setseq(P, r, it)
    return It('items', tuple(Ref(r.c, r.p + (('i', k),)) for k in range(len(it))))
@m('Iterator.next', 'Chars.next')
def _(P, a, d, dt, at):
    r = toref(P, a[0])
    it, back = consume(P, r)
    f, x, i2 = inext(P, it); back(i2)
    return some(x) if f else NONE
@m('DoubleEndedIterator.next_back')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0])
    f, x, i2 = iback(P, it); back(i2)
    return some(x) if f else NONE
@m('Iterator.last')
def _(P, a, d, dt, at):
    it = as_it(P, a[0])
    if it.k in ('items', 'refs', 'chars', 'cloned', 'rev'):
        f, x, _r = iback(P, it); return some(x) if f else NONE
    r = NONE
    for x in drain_it(P, it): r = some(x)
    return r
@m('Iterator.nth')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0]); n = res(a[1])
    if n.__class__ is not int and it.k in ('items', 'refs', 'chars'):
        its, k = P.locate(it.d[0], n)
        if k is None: back(It(it.k, ())); return NONE
        back(It(it.k, its[k+1:]))
        return some(refto(its[k]) if it.k == 'refs' else its[k])
    while True:
        f, x, it = inext(P, it)
        if not f: back(it); return NONE
        if not P.ge0(ladd(n, -1)): back(it); return some(x)
        n = ladd(n, -1)

def pure_fn(P, f):
    """the closure does not write through its captures (so a segment may be searched as a whole)"""
    f = res(f)
    while f.__class__ is Ref: f = res(P.rd(f))
    if f.__class__ is FnV: return True
    if f.__class__ is not Clo: return False
    b = P.prog.B.get(f.k)
    if b is None: return False
    c = P.prog.memo.setdefault('pure', {}) if hasattr(P.prog, 'memo') else {}
    if f.k in c: return c[f.k]
    ok_ = True
    for bb in b['bb']:
        if not bb: continue
        for st in bb['s']:
            if st[0] == '=' and st[1][0] == 1: ok_ = False
            if st[0] == '=' and st[2][0] == 'ref' and st[2][1] and st[2][2][0] == 1: ok_ = False
            if st[0] == '=' and st[2][0] == 'use' and st[2][1][0] != 'k' and st[2][1][1][0] == 1 and len(st[2][1][1][1]) > 0:
                t = P.prog.T[b['locals'][st[1][0]][0]] if not st[1][1] else None
                if t and t['k'] == 'ref' and t.get('m'): ok_ = False
    c[f.k] = ok_
    return ok_

def seg_base(P, it):
    """(items, elem->item) of an iterator that visits a segment list in order, else None"""
    if it.k == 'items' or it.k == 'chars': return it.d[0], (lambda e: e), (lambda its: It(it.k, its))
    if it.k == 'refs': return it.d[0], refto, (lambda its: It('refs', its))
    if it.k == 'cloned':
        b = seg_base(P, it.d[0])
        if b: return b[0], (lambda e: clone(P, P.un1(b[1](e)))), (lambda its: It('cloned', b[2](its)))
    if it.k == 'map_' and pure_fn(P, it.d[1]):
        b = seg_base(P, it.d[0])
        if b: return b[0], (lambda e: P.callv(it.d[1], [b[1](e)])), (lambda its: It('map_', b[2](its), it.d[1]))
    return None

def seg_search(P, it, test, pure):
    """first element satisfying test: (found, item, index, remaining iterator)"""
    b = seg_base(P, it) if pure else None
    if b is not None:
        items, f, mk = b
        idx = 0
        while True:
            items = flat_items(items)
            if not items: return False, None, idx, mk(())
            x = items[0]
            if x.__class__ is not Gap:
                y = f(x)
                if test(y): return True, y, idx, mk(items[1:])
                idx = ladd(idx, 1); items = items[1:]; continue
            e, n = P.gap_empty_options(x)
            if not n: x.bound = (); continue
            fact = lambda path, el: not test(f(el))
            if P.choose(2, '%s: no element matches / first match' % x.name) == 0:
                x.facts = x.facts + (fact,)
                idx = ladd(idx, Lin(0, {x.var: 1})); items = items[1:]; continue
            g1 = P.gap_new(x); g1.facts = x.facts + (fact,); g2 = P.gap_new(x)
            el = P.gap_elem(x, 'mid')
            x.bound = (g1, el, g2)
            y = f(el)
            if not test(y): raise Prune()
            return True, y, ladd(idx, Lin(0, {g1.var: 1})), mk((g2,) + tuple(items[1:]))
    if pure and it.k in ('map', 'keys', 'values'):
        base = it if it.k == 'map' else it.d[0]
        if base.k == 'map':
            mm = P.map_flat(base.d[0]); start = base.d[2] if len(base.d) > 2 else 0
            if base.d[1] is not None: wrap = lambda i, k, v: Tup((refto(k), Ref(base.d[1].c, base.d[1].p + (('mv', i),)) if i is not None else refto(v)))
            else: wrap = lambda i, k, v: Tup((k, v))
            pick = (lambda t: t) if it.k == 'map' else (lambda t: t.f[0 if it.k == 'keys' else 1])
            idx = 0
            for i in range(start, len(mm.e)):
                y = pick(wrap(i, *mm.e[i]))
                if test(y):
                    nx = It('map', mm, base.d[1], i + 1)
                    return True, y, idx, (nx if it.k == 'map' else It(it.k, nx))
                idx += 1
            g = mm.g
            if g is not None and g.bound is None and (not P.cons or P.feasible(Lin(-1, {g.var: 1}))):
                fact = lambda path, k, v: not test(pick(wrap(None, k, v)))
                if P.choose(2, '%s: no entry matches / some entry matches' % g.name) == 0:
                    g.facts = g.facts + (fact,)
                else:
                    if g.root.count >= P.cfg.KM + 2: P.bounded = True; raise Cut()
                    g.root.count += 1
                    k, v = g.make(P, g, None)
                    h = P.mg_new(g); h.min = max(0, g.min - 1)
                    g.bound = (((k, v),), h)
                    for a in g.absent:
                        if P.veq(a, k): raise Prune()
                    for fa in g.facts: P.fact(fa, k, v)
                    mm = P.map_flat(mm)
                    i = len(mm.e) - 1
                    y = pick(wrap(i, k, v))
                    if not test(y): raise Prune()
                    nx = It('map', mm, base.d[1], i + 1)
                    return True, y, idx, (nx if it.k == 'map' else It(it.k, nx))
            nx = It('map', mm, base.d[1], len(mm.e))
            return False, None, idx, It('items', ())
    idx = 0
    while True:
        f, x, it = inext(P, it)
        if not f: return False, None, idx, it
        if test(x): return True, x, idx, it
        idx += 1

def searcher(mkres, arg, neg=False):
    def f(P, a, d, dt, at):
        it, back = consume(P, a[0])
        test = lambda x: P.truth(P.callv(a[1], [arg(x)])) != neg
        found, x, idx, it2 = seg_search(P, it, test, pure_fn(P, a[1]))
        back(it2)
        return mkres(found, x, idx)
    return f
M['Iterator.all'] = searcher(lambda f, x, i: not f, lambda x: x, True)
M['Iterator.any'] = searcher(lambda f, x, i: f, lambda x: x)
M['Iterator.find'] = searcher(lambda f, x, i: some(x) if f else NONE, lambda x: Ref(Cell(x)))
M['Iterator.position'] = searcher(lambda f, x, i: some(i) if f else NONE, lambda x: x)
@m('Iterator.find_map')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0])
    while True:
        f, x, it = inext(P, it)
        if not f: back(it); return NONE
        o = opt(P, P.callv(a[1], [x]))
        if o is not None: back(it); return some(o[0])
@m('DoubleEndedIterator.rfind')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0])
    while True:
        f, x, it = iback(P, it)
        if not f: back(it); return NONE
        if P.truth(P.callv(a[1], [Ref(Cell(x))])): back(it); return some(x)
@m('Iterator.rposition')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0])
    n = it_len(P, it)
    while True:
        f, x, it = iback(P, it)
        if not f: back(it); return NONE
        n = ladd(n, -1)
        if P.truth(P.callv(a[1], [x])): back(it); return some(n)
@m('Iterator.for_each')
def _(P, a, d, dt, at):
    for x in drain_it(P, as_it(P, a[0])): P.callv(a[1], [x])
    return UNIT
@m('Iterator.try_for_each')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0])
    while True:
        f, x, it = inext(P, it)
        if not f:
            back(it)
            return ok(UNIT) if dt is None or P.prog.T[dt].get('p') == RESULT else some(UNIT)
        r = res(P.callv(a[1], [x])); vi = P.variant(r); r = res(r)
        if (r.p == RESULT and vi == 1) or (r.p == OPTION and vi == 0): back(it); return r
@m('Iterator.fold')
def _(P, a, d, dt, at):
    acc = a[1]
    for x in drain_it(P, as_it(P, a[0])): acc = P.callv(a[2], [acc, x])
    return acc
@m('Iterator.try_fold')
def _(P, a, d, dt, at):
    acc = a[1]; it, back = consume(P, a[0])
    while True:
        f, x, it = inext(P, it)
        if not f:
            back(it)
            return ok(acc) if dt is None or P.prog.T[dt].get('p') == RESULT else some(acc)
        r = res(P.callv(a[2], [acc, x])); vi = P.variant(r); r = res(r)
        if (r.p == RESULT and vi == 1) or (r.p == OPTION and vi == 0): back(it); return r
        acc = r.f[0]
@m('Iterator.reduce')
def _(P, a, d, dt, at):
    acc = None
    for x in drain_it(P, as_it(P, a[0])): acc = x if acc is None else P.callv(a[1], [acc, x])
    return NONE if acc is None else some(acc)
@m('Iterator.count')
def _(P, a, d, dt, at):
    it = as_it(P, a[0])
    n = it_len(P, it)
    if n is not None: return n
    return sum(1 for _ in drain_it(P, it))
@m('ExactSizeIterator.len')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0]); return it_len(P, it)
@m('Iterator.sum')
def _(P, a, d, dt, at):
    n = 0
    for x in drain_it(P, as_it(P, a[0])): n = ladd(n, P.un(x))
    return n
@m('Iterator.max', 'Iterator.min', 'Iterator.max_by_key', 'Iterator.min_by_key')
def _(P, a, d, dt, at):
    best = None
    for x in drain_it(P, as_it(P, a[0])):
        k = P.un(x) if len(a) < 2 else P.un(P.callv(a[1], [refto(x)]))
        if best is None: best = (k, x); continue
        c = ladd(k, best[0], -1) if 'max' in d['n'] else ladd(ladd(best[0], k, -1), -1)
        if P.ge0(c): best = (k, x)
    return NONE if best is None else some(best[1])
def adapt(k, *extra):
    def f(P, a, d, dt, at): return It(k, as_it(P, a[0]), *([x for x in a[1:]] + list(extra)))
    return f
M['Iterator.map'] = adapt('map_'); M['Iterator.filter'] = adapt('filter'); M['Iterator.filter_map'] = adapt('filter_map')
M['Iterator.enumerate'] = adapt('enumerate', 0); M['Iterator.rev'] = adapt('rev'); M['Iterator.skip'] = adapt('skip'); M['Iterator.take'] = adapt('take')
M['Iterator.take_while'] = adapt('take_while', False); M['Iterator.skip_while'] = adapt('skip_while', False); M['Iterator.peekable'] = adapt('peek', None)
M['Iterator.inspect'] = adapt('inspect'); M['Iterator.fuse'] = adapt('fuse'); M['Iterator.step_by'] = adapt('step_by'); M['Iterator.map_while'] = adapt('map_while')
@m('Iterator.cloned', 'Iterator.copied')
def _(P, a, d, dt, at): return It('cloned', as_it(P, a[0]))
@m('Iterator.chain')
def _(P, a, d, dt, at): return It('chain', as_it(P, a[0]), as_it(P, a[1]))
@m('Iterator.zip')
def _(P, a, d, dt, at): return It('zip', as_it(P, a[0]), as_it(P, a[1]))
@m('Iterator.flat_map')
def _(P, a, d, dt, at): return It('flat', None, It('map_', as_it(P, a[0]), a[1]))
@m('Iterator.flatten')
def _(P, a, d, dt, at): return It('flat', None, as_it(P, a[0]))
@m('Iterator.scan')
def _(P, a, d, dt, at): return It('scan', as_it(P, a[0]), Ref(Cell(a[1])), a[2])
@m('Iterator.size_hint')
def _(P, a, d, dt, at): P.imp('size_hint'); return P.fresh_t(dt, 'size_hint')
@m('Peekable.peek')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); it = res(P.rd(r))
    if it.d[1] is None:
        f, x, i2 = inext(P, it.d[0]); it = It('peek', i2, (f, x))
        r.c.v = P.setp(r.c.v, r.p, it) if r.p else it
    return some(refto(it.d[1][1])) if it.d[1][0] else NONE
@m('Peekable.next_if', 'Peekable.next_if_eq')
def _(P, a, d, dt, at):
    r = toref(P, a[0]); it = res(P.rd(r))
    if it.d[1] is None:
        f, x, i2 = inext(P, it.d[0]); it = It('peek', i2, (f, x))
    c = it.d[1][0] and (P.truth(P.callv(a[1], [refto(it.d[1][1])])) if d['n'] == 'next_if' else P.veq(it.d[1][1], a[1]))
    o = some(it.d[1][1]) if c else NONE
    if c: it = It('peek', it.d[0], None)
    r.c.v = P.setp(r.c.v, r.p, it) if r.p else it
    return o
@m('iter.once')
def _(P, a, d, dt, at): return It('items', (a[0],))
@m('iter.empty')
def _(P, a, d, dt, at): return It('items', ())
@m('iter.repeat')
def _(P, a, d, dt, at): return It('repeat', a[0])
@m('iter.successors', 'successors.successors', 'sources.successors')
def _(P, a, d, dt, at): return It('successors', opt(P, a[0]), a[1])
@m('iter.from_fn')
def _(P, a, d, dt, at): return It('from_fn', a[0])
M['*.successors'] = M['iter.successors']; M['*.from_fn'] = M['iter.from_fn']; M['*.once'] = M['iter.once']
@m('slice.as_slice', 'Iter.as_slice')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0]); return Ref(Cell(Seq(it.d[0])))
@m('Chars.as_str')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0]); return cat((Run(tuple(it.d[0])),)) if it.d[0] else ''

def collect_into(P, it, ti):
    t = P.prog.T[ti]
    if t['k'] == 'adt':
        s = short(t['p'])
        if s in ('Vec', 'VecDeque'):
            if it.k == 'items': return Seq(it.d[0])
            if it.k == 'cloned' and it.d[0].k in ('refs', 'items'): return clone(P, Seq(it.d[0].d[0]))
            return Seq(tuple(drain_it(P, it)))
        if s == 'Box': return Ref(Cell(Seq(tuple(drain_it(P, it)))))
        if s == 'String':
            parts = []
            if it.k == 'chars': return cat((Run(tuple(it.d[0])),)) if it.d[0] else ''
            for x in drain_it(P, it):
                u = P.un(x)
                parts.append(u if u.__class__ in STRT else Run((u,)))
            return cat(parts)
        if s in ('HashMap', 'BTreeMap'):
            mm = MapV((), None)
            for x in drain_it(P, it):
                mm, _o = map_insert(P, mm, P.getf(x, 0), P.getf(x, 1))
            return mm
        if s in ('HashSet', 'BTreeSet'):
            mm = MapV((), None)
            for x in drain_it(P, it): mm, _o = map_insert(P, mm, x, UNIT)
            return mm
        if t['p'] in (OPTION, RESULT):
            out = []
            for x in drain_it(P, it):
                r = res(x); vi = P.variant(r); r = res(r)
                if r.p == RESULT and vi == 1 or r.p == OPTION and vi == 0: return r
                out.append(r.f[0])
            v = collect_into(P, It('items', tuple(out)), t['a'][0])
            return some(v) if t['p'] == OPTION else ok(v)
    if t['k'] == 'tuple' and not t['a']:
        for x in drain_it(P, it): pass
        return UNIT
    P.imp('collect into ' + t['s'])
    return Seq(tuple(drain_it(P, it)))

@m('Iterator.collect', 'FromIterator.from_iter')
def _(P, a, d, dt, at):
    ti = dt if dt is not None else d['a'][-1]
    return collect_into(P, as_it(P, a[0]), ti)
@m('Iterator.partition')
def _(P, a, d, dt, at):
    x, y = [], []
    for e in drain_it(P, as_it(P, a[0])): (x if P.truth(P.callv(a[1], [refto(e)])) else y).append(e)
    return Tup((Seq(tuple(x)), Seq(tuple(y))))
@m('Iterator.unzip')
def _(P, a, d, dt, at):
    x, y = [], []
    for e in drain_it(P, as_it(P, a[0])): x.append(P.getf(e, 0)); y.append(P.getf(e, 1))
    return Tup((Seq(tuple(x)), Seq(tuple(y))))
@m('Extend.extend')
def _(P, a, d, dt, at):
    v = P.un(a[0]); it = as_it(P, a[1])
    if v.__class__ is Seq:
        if it.k == 'items': vw(P, a[0], v.i + tuple(it.d[0]))
        elif it.k == 'cloned' and it.d[0].k in ('refs', 'items'): vw(P, a[0], v.i + clone(P, Seq(it.d[0].d[0])).i)
        else:
            new = tuple(drain_it(P, it))
            vw(P, a[0], seqof(P, a[0]).i + new)
        return UNIT
    if v.__class__ is MapV:
        for x in drain_it(P, it):
            r = toref(P, a[0]); k, y = (P.getf(x, 0), P.getf(x, 1)) if res(x).__class__ is Tup else (x, UNIT)
            if k.__class__ is Ref: k = clone(P, P.un1(k))
            if y.__class__ is Ref: y = clone(P, P.un1(y))
            mm, _o = map_insert(P, P.un(a[0]), k, y); P.wr(r, mm)
        return UNIT
    if v.__class__ in STRT:
        for x in drain_it(P, it):
            u = P.un(x); r = toref(P, a[0])
            P.wr(r, cat((S(P, a[0]), u if u.__class__ in STRT else Run((u,)))))
        return UNIT
    P.imp('extend'); return UNIT

# ------------------------------------------------------------------ HashMap / HashSet
def mapof(P, v):
    x = P.un(v)
    if x.__class__ is not MapV:
        if x.__class__ is Opq: P.imp('opaque map'); return MapV((), None)
        raise EngineError('map expected: %s' % x.__class__.__name__)
    return x
def map_insert(P, mm, k, v):
    i, mm = P.map_lookup(mm, k)
    if i is None: return MapV(mm.e + ((k, v),), mm.g), None
    e = list(mm.e); old = e[i][1]; e[i] = (e[i][0], v)
    return MapV(tuple(e), mm.g), (old,)
@m('HashMap.new', 'HashMap.with_capacity', 'HashSet.new', 'BTreeMap.new', 'BTreeSet.new', 'HashSet.with_capacity')
def _(P, a, d, dt, at): return MapV((), None)
@m('HashMap.contains_key', 'HashSet.contains', 'BTreeMap.contains_key', 'BTreeSet.contains')
def _(P, a, d, dt, at): return P.map_lookup(mapof(P, a[0]), a[1])[0] is not None
@m('HashMap.get', 'HashMap.get_mut', 'BTreeMap.get', 'BTreeMap.get_mut')
def _(P, a, d, dt, at):
    i, mm = P.map_lookup(mapof(P, a[0]), a[1])
    if i is None: return NONE
    r = toref(P, a[0])
    r.c.v = P.setp(r.c.v, r.p, mm) if r.p else mm
    return some(Ref(r.c, r.p + (('mv', i),)))
@m('HashMap.get_key_value')
def _(P, a, d, dt, at):
    i, mm = P.map_lookup(mapof(P, a[0]), a[1])
    return NONE if i is None else some(Tup((refto(mm.e[i][0]), refto(mm.e[i][1]))))
@m('HashMap.insert', 'BTreeMap.insert')
def _(P, a, d, dt, at):
    mm, old = map_insert(P, mapof(P, a[0]), a[1], a[2]); P.wr(toref(P, a[0]), mm)
    return NONE if old is None else some(old[0])
@m('HashSet.insert', 'BTreeSet.insert')
def _(P, a, d, dt, at):
    mm, old = map_insert(P, mapof(P, a[0]), a[1], UNIT); P.wr(toref(P, a[0]), mm)
    return old is None
def map_remove(P, a):
    mm = mapof(P, a[0])
    i, mm = P.map_lookup(mm, a[1])
    if i is None: return None
    e = mm.e[i]
    P.wr(toref(P, a[0]), MapV(mm.e[:i] + mm.e[i+1:], absent(mm.g, e[0]))) 
    return e
def absent(g, k):
    if g is not None: g.absent.append(k)
    return g
@m('HashMap.remove', 'BTreeMap.remove')
def _(P, a, d, dt, at):
    e = map_remove(P, a); return NONE if e is None else some(e[1])
@m('HashMap.remove_entry')
def _(P, a, d, dt, at):
    e = map_remove(P, a); return NONE if e is None else some(Tup(e))
@m('HashSet.remove', 'BTreeSet.remove')
def _(P, a, d, dt, at): return map_remove(P, a) is not None
@m('HashMap.len', 'HashSet.len', 'BTreeMap.len')
def _(P, a, d, dt, at):
    mm = P.map_flat(mapof(P, a[0]))
    return Lin(len(mm.e), {mm.g.var: 1}) if mm.g is not None else len(mm.e)
@m('HashMap.is_empty', 'HashSet.is_empty', 'BTreeMap.is_empty')
def _(P, a, d, dt, at):
    mm = P.map_flat(mapof(P, a[0]))
    if mm.e: return False
    if mm.g is None: return True
    P.mg_take(mm.g); mm = P.map_flat(mm)
    return not mm.e
@m('HashMap.iter', 'HashMap.iter_mut', 'BTreeMap.iter', 'HashSet.iter', 'BTreeSet.iter')
def _(P, a, d, dt, at): return as_it(P, a[0])
@m('HashMap.keys', 'HashMap.into_keys', 'BTreeMap.keys')
def _(P, a, d, dt, at): return It('keys', as_it(P, a[0]))
@m('HashMap.values', 'HashMap.values_mut', 'HashMap.into_values', 'BTreeMap.values')
def _(P, a, d, dt, at): return It('values', as_it(P, a[0]))
@m('HashMap.drain')
def _(P, a, d, dt, at):
    mm = mapof(P, a[0]); P.wr(toref(P, a[0]), MapV((), None)); return It('map', mm, None)
@m('HashMap.retain')
def _(P, a, d, dt, at):
    mm = mapof(P, a[0]); keep = []
    it = It('map', mm, None)
    for x in drain_it(P, it):
        c = Ref(Cell(x.f[1]))
        if P.truth(P.callv(a[1], [refto(x.f[0]), c])): keep.append((x.f[0], P.rd(c)))
    P.wr(toref(P, a[0]), MapV(tuple(keep), None)); return UNIT
@m('HashMap.entry')
def _(P, a, d, dt, at):
    i, mm = P.map_lookup(mapof(P, a[0]), a[1])
    r = toref(P, a[0])
    r.c.v = P.setp(r.c.v, r.p, mm) if r.p else mm
    return It('entry', r, i, a[1])
def entry_ins(P, e, v):
    r, i, k = e.d
    mm = P.map_flat(P.un(r))
    P.wr(r, MapV(mm.e + ((k, v),), mm.g))
    # entries materialised later come after: keep the order by flattening now
    return Ref(r.c, r.p + (('mv', len(mm.e)),))
@m('Entry.or_insert', 'Entry.or_insert_with', 'Entry.or_default')
def _(P, a, d, dt, at):
    e = res(a[0]); r, i, k = e.d
    if i is not None: return Ref(r.c, r.p + (('mv', i),))
    if d['n'] == 'or_default':
        v = default_of(P, P.prog.T[dt]['e'])
    else: v = a[1] if d['n'] == 'or_insert' else P.callv(a[1], [])
    return entry_ins(P, e, v)
@m('Entry.and_modify')
def _(P, a, d, dt, at):
    e = res(a[0]); r, i, k = e.d
    if i is not None: P.callv(a[1], [Ref(r.c, r.p + (('mv', i),))])
    return e

# ------------------------------------------------------------------ strings
@m('String.new', 'String.with_capacity')
def _(P, a, d, dt, at): return ''
@m('String.push')
def _(P, a, d, dt, at):
    P.wr(toref(P, a[0]), cat((S(P, a[0]), Run((res(a[1]),))))); return UNIT
@m('String.push_str')
def _(P, a, d, dt, at):
    P.wr(toref(P, a[0]), cat((S(P, a[0]), S(P, a[1])))); return UNIT
@m('String.insert_str', 'String.insert')
def _(P, a, d, dt, at):
    s = S(P, a[0]); x = res(a[2])
    x = x if x.__class__ in STRT else Run((x,))
    i = res(a[1])
    pre = P.s_slice(s, 0, i); post = P.s_slice(s, i, None)
    P.wr(toref(P, a[0]), cat((pre, x, post))); return UNIT
@m('String.truncate')
def _(P, a, d, dt, at):
    s = S(P, a[0]); n = res(a[1])
    if P.ge0(ladd(P.slen(s), n, -1)): P.wr(toref(P, a[0]), P.s_slice(s, 0, n))
    return UNIT
@m('String.replace_range', 'String.drain')
def _(P, a, d, dt, at):
    s = S(P, a[0]); lo, hi, inc = rng(P, a[1])
    lo = res(lo); hi = None if hi is None else ladd(res(hi), 1) if inc else res(hi)
    mid = P.s_slice(s, lo, hi)
    n = str_len(s)
    pre = P.sub(s, 0, lo); post = P.sub(s, hi, n) if hi is not None else ''
    if d['n'] == 'drain':
        P.wr(toref(P, a[0]), cat((pre, post))); return It('chars', P.chars(mid))
    P.wr(toref(P, a[0]), cat((pre, S(P, a[2]), post))); return UNIT
@m('String.remove')
def _(P, a, d, dt, at):
    s = S(P, a[0]); i = res(a[1])
    rest = P.s_slice(s, i, None)
    f, x, r = P.first(P.chars(rest))
    if not f: P.panic('cannot remove a char from the end of a string', 'slice')
    P.wr(toref(P, a[0]), cat((P.s_slice(s, 0, i), Run(r)))); return x
@m('String.pop')
def _(P, a, d, dt, at):
    f, x, r = P.last(P.chars(S(P, a[0])))
    if not f: return NONE
    P.wr(toref(P, a[0]), cat((Run(tuple(r)),)) if r else ''); return some(x)
@m('String.as_str', 'String.into_string', 'str.as_ref', 'str.to_string', 'String.as_mut_str', 'str.to_owned', 'str.into_string', 'String.from', 'str.as_str', 'String.leak')
def _(P, a, d, dt, at): return S(P, a[0])
@m('str.len', 'String.len')
def _(P, a, d, dt, at): return P.slen(S(P, a[0]))
@m('str.is_empty', 'String.is_empty')
def _(P, a, d, dt, at): return P.s_is_empty(S(P, a[0]))
@m('str.chars')
def _(P, a, d, dt, at): return It('chars', P.chars(S(P, a[0])))
@m('str.char_indices')
def _(P, a, d, dt, at): return It('char_indices', P.chars(S(P, a[0])), 0)
@m('str.is_char_boundary')
def _(P, a, d, dt, at):
    s = S(P, a[0]); i = res(a[1])
    if not P.ge0(ladd(P.slen(s), i, -1)): return False
    return P.boundary(s, i)
@m('str.as_bytes', 'str.bytes', 'String.as_bytes', 'String.into_bytes')
def _(P, a, d, dt, at):
    s = S(P, a[0])
    if s.__class__ is str: sq = Seq(tuple(s.encode('utf8', 'surrogatepass')))
    else:
        # bytes of an undetermined string: its characters when ASCII
        out = []
        items = P.chars(s)
        while True:
            f, c, items = P.first(items)
            if not f: break
            if P.fix_width(c) == 1: out.append(c)
            else:
                for j in range(cwidth(c)): out.append(CSym(P, 'utf8 byte', [(0x80, 0xFF)]))
        sq = Seq(tuple(out))
    return It('items', sq.i) if d['n'] == 'bytes' else (sq if d['n'] == 'into_bytes' else Ref(Cell(sq)))
@m('str.get')
def _(P, a, d, dt, at):
    lo, hi, inc = rng(P, a[1])
    r = P.s_slice(S(P, a[0]), res(lo), None if hi is None else ladd(res(hi), 1) if inc else res(hi), True)
    return NONE if r is None else some(r)
@m('str.split_at')
def _(P, a, d, dt, at):
    s = S(P, a[0]); i = res(a[1])
    return Tup((P.s_slice(s, 0, i), P.s_slice(s, i, None)))
@m('str.split_at_checked')
def _(P, a, d, dt, at):
    s = S(P, a[0]); i = res(a[1])
    x = P.s_slice(s, 0, i, True)
    return NONE if x is None else some(Tup((x, P.s_slice(s, i, None))))

def pat(P, p):
    """('s', string) | ('f', fn char->bool)"""
    p0 = res(p)
    u = P.un(p0)
    if u.__class__ in STRT: return 's', u
    if u.__class__ is int or u.__class__ is CSym: return 's', cat((Run((u,)),))
    if u.__class__ is Seq: return 'f', lambda c: any_in(P, c, u.i)
    if u.__class__ in (Clo, FnV): return 'f', lambda c: P.truth(P.callv(p0, [c]))
    raise EngineError('pattern %s' % u.__class__.__name__)
def any_in(P, c, items):
    items = [P.un(x) for x in items]
    if all(x.__class__ is int for x in items): return P.cin(c, iv_union([(x, x) for x in items]))
    return any(P.ceq(c, x) for x in items)

def s_starts(P, s, t, end=False):
    s = res(s); t = res(t)
    if t.__class__ is str and t == '': return True
    if s.__class__ is str and t.__class__ is str: return s.endswith(t) if end else s.startswith(t)
    if P.same(s, t): return True
    ps = sparts(s)
    e = ps[-1 if end else 0]
    if t.__class__ is str:
        if e.__class__ is str:
            if len(e) >= len(t): return e.endswith(t) if end else e.startswith(t)
            if not (t.endswith(e) if end else t.startswith(e)): return False
            rest = t[:-len(e)] if end else t[len(e):]
            return s_starts(P, cat(ps[:-1] if end else ps[1:]), rest, end)
        if e.__class__ is SSym and e.gap is None and len(t) > 1:
            if any(ch in t for ch in e.no if len(ps) == 1): return False
            k = ('sw', end, e.id, t)
            if k in P.memo: return P.memo[k]
            r = P.choose(2, '%s %s %r' % (sstr(e), 'ends with' if end else 'starts with', t)) == 0
            P.memo[k] = r
            if r:
                x = SSym(P, '%s[%d..]' % (e.name, len(t))); x.no = e.no
                P.bind_s(e, cat((x, t)) if end else cat((t, x)))
            return r
        items = P.chars(s)
        for c in (reversed(t) if end else t):
            f, x, items = (P.last if end else P.first)(items)
            if not f or not P.ceq(x, ord(c)): return False
        return True
    k = ('sw', end, P.key(s), P.key(t))
    return P.memo_bool(k, '%s %s %s' % (sstr(s), 'ends with' if end else 'starts with', sstr(t)))

def sw(end):
    def f(P, a, d, dt, at):
        s = S(P, a[0]); k, p = pat(P, a[1])
        if k == 's': return s_starts(P, s, p, end)
        g, c, _r = (P.last if end else P.first)(P.chars(s))
        return g and p(c)
    return f
M['str.starts_with'] = sw(False); M['str.ends_with'] = sw(True)
@m('str.strip_prefix', 'str.strip_suffix')
def _(P, a, d, dt, at):
    end = d['n'] == 'strip_suffix'
    s = S(P, a[0]); k, p = pat(P, a[1])
    if k == 's':
        if not s_starts(P, s, p, end): return NONE
        n = P.slen(p)
        s = res(s)
        L = P.slen(s)
        if s.__class__ is str and p.__class__ is str: return some(s[:len(s)-len(p)] if end else s[len(p):])
        return some(P.sub(s, 0, ladd(L, n, -1)) if end else P.sub(s, n, L))
    g, c, r = (P.last if end else P.first)(P.chars(s))
    if not g or not p(c): return NONE
    return some(cat((Run(tuple(r)),)) if r else '')

def split_find(P, s, kind, p):
    """split s at the first occurrence of the pattern: (pre, sep, post) or None"""
    s = res(s)
    if s.__class__ is str and s == '': return None
    if kind == 's' and p.__class__ is str and s.__class__ is str:
        i = s.find(p)
        return None if i < 0 else (s[:i], p, s[i+len(p):])
    if kind == 's' and p.__class__ is str:
        pre = []
        ps = list(sparts(s))
        for i, q in enumerate(ps):
            if q.__class__ is str:
                j = q.find(p)
                if j >= 0: return cat(pre + [q[:j]]), p, cat([q[j+len(p):]] + ps[i+1:])
                pre.append(q); continue
            if q.__class__ is Run:
                items = q.i
                if len(p) == 1:
                    out = []
                    rest = items
                    while True:
                        f, x, rest = P.first(rest)
                        if not f: break
                        if P.ceq(x, ord(p)):
                            return cat(pre + [Run(tuple(out))]), p, cat([Run(rest)] + ps[i+1:])
                        out.append(x)
                    pre.append(Run(tuple(out))); continue
                P.imp('search in materialised chars'); pre.append(q); continue
            if p in q.no: pre.append(q); continue
            if q.gap is not None and len(p) == 1:
                return split_find(P, cat(pre + [Run((q.gap,))] + ps[i+1:]), kind, p)
            k = ('nsep', q.id)
            cnt = P.memo.get(('seps', p), 0)
            if cnt >= P.cfg.SEPS:
                P.bounded = True
                q.no = q.no | {p}; pre.append(q); continue
            if P.choose(2, '%s contains %r' % (q.name, p)) == 1:
                q.no = q.no | {p}; pre.append(q); continue
            P.memo[('seps', p)] = cnt + 1
            x = SSym(P, '%s<%s' % (q.name, p)); x.no = q.no | {p}
            y = SSym(P, '%s>%s' % (q.name, p)); y.no = q.no
            P.bind_s(q, cat((x, p, y)))
            return cat(pre + [x]), p, cat([y] + ps[i+1:])
        return None
    if kind == 'f':
        items = P.chars(s); out = []
        while True:
            f, x, items = P.first(items)
            if not f: return None
            if p(x): return (cat((Run(tuple(out)),)) if out else ''), cat((Run((x,)),)), (cat((Run(items),)) if items else '')
            out.append(x)
    P.imp('search for an undetermined pattern')
    return None if P.memo_bool(('contains', P.key(s), P.key(p)), 'contains') is False else (SSym(P, 'pre'), p, SSym(P, 'post'))

@m('str.contains')
def _(P, a, d, dt, at):
    k, p = pat(P, a[1]); return split_find(P, S(P, a[0]), k, p) is not None
@m('str.find')
def _(P, a, d, dt, at):
    k, p = pat(P, a[1]); r = split_find(P, S(P, a[0]), k, p)
    return NONE if r is None else some(P.slen(r[0]))
@m('str.rfind')
def _(P, a, d, dt, at):
    k, p = pat(P, a[1]); s = S(P, a[0]); best = None; pre = ''
    while True:
        r = split_find(P, s, k, p)
        if r is None: break
        best = cat((pre, r[0])); pre = cat((pre, r[0], r[1])); s = r[2]
    return NONE if best is None else some(P.slen(best))
@m('str.split_once', 'str.rsplit_once')
def _(P, a, d, dt, at):
    k, p = pat(P, a[1]); s = S(P, a[0])
    r = split_find(P, s, k, p)
    if r is None: return NONE
    if d['n'] == 'split_once': return some(Tup((r[0], r[2])))
    pre, post = r[0], r[2]; sep = r[1]
    while True:
        r = split_find(P, post, k, p)
        if r is None: return some(Tup((pre, post)))
        pre = cat((pre, sep, r[0])); sep = r[1]; post = r[2]
@m('str.split', 'str.splitn', 'str.split_terminator', 'str.rsplit', 'str.split_inclusive')
def _(P, a, d, dt, at):
    n = None; pa = a[1]
    if d['n'] == 'splitn': n = res(a[1]); pa = a[2]
    k, p = pat(P, pa)
    it = It('split', S(P, a[0]), k, p, n, d['n'])
    if d['n'] == 'rsplit': return It('items', tuple(reversed(list(drain_it(P, It('split', S(P, a[0]), k, p, n, 'split'))))))
    return it
def split_next(P, it):
    s, k, p, n, kind = it.d
    if s is None: return False, None, it
    if n is not None:
        if n == 0: return False, None, it
        if n == 1: return True, s, It('split', None, k, p, 0, kind)
    r = split_find(P, s, k, p)
    if r is None:
        if kind in ('split_terminator', 'split_inclusive') and P.s_is_empty(s): return False, None, it
        return True, s, It('split', None, k, p, n, kind)
    x = cat((r[0], r[1])) if kind == 'split_inclusive' else r[0]
    return True, x, It('split', r[2], k, p, None if n is None else n - 1, kind)
@m('str.lines', 'str.split_whitespace', 'str.matches', 'str.match_indices')
def _(P, a, d, dt, at): P.imp('str.' + d['n']); return It('items', ())

def sterm(P, name, s, *more, **kw):
    k = (name, P.key(s)) + tuple(P.key(x) for x in more)
    if k not in P.memo:
        t = SSym(P, '%s(%s%s)' % (name, sstr(s), ''.join(', ' + vstr(P, x) for x in more)), (name, s) + more)
        P.memo[k] = t
    return P.memo[k]
@m('str.to_ascii_lowercase', 'str.to_lowercase', 'str.to_ascii_uppercase', 'str.to_uppercase')
def _(P, a, d, dt, at):
    s = S(P, a[0])
    if s.__class__ is str: return s.lower() if 'lower' in d['n'] else s.upper()
    n = 'lower' if 'lower' in d['n'] else 'upper'
    if 'ascii' not in d['n']: n = 'u' + n
    return cat([(p.lower() if 'lower' in n else p.upper()) if p.__class__ is str else sterm(P, n, p if p.__class__ is SSym else Cat((p,))) for p in sparts(s)])
@m('str.eq_ignore_ascii_case')
def _(P, a, d, dt, at):
    x, y = S(P, a[0]), S(P, a[1])
    if x.__class__ is str and y.__class__ is str: return x.lower() == y.lower()
    low = lambda s: s.lower() if s.__class__ is str else sterm(P, 'lower', s)
    return P.s_eq(low(x), low(y))
WHITE = iv_union([(9, 13), (32, 32), (0x85, 0x85), (0xa0, 0xa0), (0x1680, 0x1680), (0x2000, 0x200a), (0x2028, 0x2029), (0x202f, 0x202f), (0x205f, 0x205f), (0x3000, 0x3000)])
def trimmed(P, s, test, start, end):
    """s without the characters for which test holds at its start and/or end"""
    items = P.chars(s)
    if start:
        while True:
            f, x, rest = P.first(items)
            if not f: return ''
            if not test(x): break
            items = rest
    if end:
        while True:
            f, x, rest = P.last(items)
            if not f: return ''
            if not test(x): break
            items = rest
    items = flat_items(items)
    return cat((Run(tuple(items)),)) if items else ''
@m('str.trim', 'str.trim_start', 'str.trim_end')
def _(P, a, d, dt, at):
    s = S(P, a[0])
    if s.__class__ is str: return s.strip() if d['n'] == 'trim' else s.lstrip() if d['n'] == 'trim_start' else s.rstrip()
    return trimmed(P, s, lambda c: P.cin(c, WHITE), d['n'] != 'trim_end', d['n'] != 'trim_start')
@m('str.trim_matches', 'str.trim_start_matches', 'str.trim_end_matches')
def _(P, a, d, dt, at):
    s = S(P, a[0]); k, p = pat(P, a[1])
    start, end = d['n'] != 'trim_end_matches', d['n'] != 'trim_start_matches'
    if k == 's':
        if p.__class__ is str and len(p) == 1:
            if s.__class__ is str: return s.lstrip(p) if not end else s.rstrip(p) if not start else s.strip(p)
            return trimmed(P, s, lambda c: P.ceq(c, ord(p)), start, end)
        if p.__class__ is str and p == '': return s
        n = 0
        while start and s_starts(P, s, p):
            n += 1
            if n > P.cfg.KC and res(s).__class__ is not str: P.imp('repeated prefix'); break
            s = P.sub(res(s), P.slen(p), P.slen(s)) if res(s).__class__ is not str else s[len(p):]
        while end and s_starts(P, s, p, True):
            n += 1
            if n > 2 * P.cfg.KC and res(s).__class__ is not str: P.imp('repeated suffix'); break
            s = P.sub(res(s), 0, ladd(P.slen(s), P.slen(p), -1)) if res(s).__class__ is not str else s[:-len(p)]
        return s
    return trimmed(P, s, p, start, end)
@m('str.replace', 'str.replacen')
def _(P, a, d, dt, at):
    s = S(P, a[0]); k, p = pat(P, a[1]); t = S(P, a[2])
    if k == 's':
        if s.__class__ is str and p.__class__ is str and t.__class__ is str and d['n'] == 'replace': return s.replace(p, t)
        if d['n'] == 'replace':
            return cat([(q.replace(p, t) if t.__class__ is str and p.__class__ is str else sterm(P, 'replace', q, p, t)) if q.__class__ is str else sterm(P, 'replace', cat((q,)), p, t) for q in sparts(s)])
    P.imp(d['n']); return SSym(P, d['n'])
@m('str.repeat')
def _(P, a, d, dt, at):
    s = S(P, a[0]); n = res(a[1])
    if n.__class__ is int: return cat([s] * n)
    P.imp('repeat'); return SSym(P, 'repeat')
@m('str.parse', 'FromStr.from_str')
def _(P, a, d, dt, at):
    ti = dt
    t = ty_of(P, dt)
    if t and t.get('p') == RESULT:
        tt = P.prog.T[t['a'][0]]
        if tt['k'] == 'adt':
            k = P.local_impl('FromStr', 'from_str', tt['p'])
            if k: return P.call(k, [S(P, a[0])])
            if short(tt['p']) == 'String': return ok(S(P, a[0]))
    s = S(P, a[0])
    k = ('parse', P.key(s), dt)
    if k not in P.memo: P.memo[k] = P.fresh_t(dt, 'parse(%s)' % sstr(s))
    return P.memo[k]
@m('str.from_utf8', '*.from_utf8')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    if v.__class__ is Seq and all(x.__class__ is int for x in v.i):
        try: return ok(bytes(v.i).decode('utf8'))
        except UnicodeDecodeError: return err(Opq(P, 'Utf8Error'))
    k = ('utf8', P.key(v))
    if k not in P.memo:
        P.memo[k] = Sym(P, RESULT, 'from_utf8', frozenset({0, 1}), mk=lambda path, vi, i: SSym(path, 'text') if vi == 0 else Opq(path, 'Utf8Error'))
    return P.memo[k]
@m('String.from_utf8_lossy')
def _(P, a, d, dt, at): P.imp('from_utf8_lossy'); return SSym(P, 'lossy')
@m('Cow.into_owned', 'Cow.to_mut')
def _(P, a, d, dt, at): return P.un(a[0])

# ------------------------------------------------------------------ formatting
def tchar(P, at):
    """is the type argument a char (True), an integer (False) or something else (None)?"""
    if not at or at[0] is None: return None
    t = P.prog.T[at[0]]
    while t['k'] in ('ref', 'ptr'): t = P.prog.T[t['e']]
    return True if t['k'] == 'char' else False if t['k'] in ('int', 'uint') else None

def as_number(P, c):
    """the value of an undetermined char used as a number"""
    n = sum(b - a + 1 for a, b in c.iv)
    if n > 48: return None
    vals = [x for a, b in c.iv for x in range(a, b + 1)]
    x = vals[P.choose(n, 'value of %s' % c.name)] if n > 1 else vals[0]
    c.iv = [(x, x)]
    return x

def of_type(P, v, at):
    """v as a value of the type argument: chars and integers share their representation"""
    u = P.un(v); k = tchar(P, at)
    if k is True and u.__class__ is int: return chr(u)
    if k is False and u.__class__ is CSym:
        x = as_number(P, u)
        return sterm(P, 'decimal', u) if x is None else x
    return None

def to_str(P, v, kind='display', alt=False):
    f = Fmt(); f.alt = alt
    r = fmt_value(P, v, kind, f)
    k, e = rslt(P, r)
    if not k: P.panic('a Display implementation returned an error unexpectedly', 'fmt')
    return cat(f.out)

def fwrite(P, f, s):
    if f.failed: f.after += 1
    if P.cfg.fmt_fail and f.sink and P.choose(2, 'the sink accepts the write') == 1:
        f.failed = True
        return err(Adt('std::fmt::Error', 0, ()))
    f.out.append(s)
    return ok(UNIT)

def fmt_value(P, v, kind, f):
    u = P.un(v)
    t = u.__class__
    tn = {'display': 'Display', 'debug': 'Debug'}.get(kind)
    if tn:
        p = u.p if t is Adt else u.ty if t is Sym else None
        if p and p not in ('bool',):
            k = P.local_impl(tn, 'fmt', p)
            if k: return P.call(k, [Ref(Cell(u)), Ref(Cell(f))])
    if t in STRT:
        if kind == 'display': return fwrite(P, f, u)
        return fwrite(P, f, sterm(P, kind, u))
    if t is FArgs: return fmt_args(P, u, f)
    if kind == 'display':
        if t is bool: return fwrite(P, f, 'true' if u else 'false')
        if t is Sym and u.ty == 'bool': return fwrite(P, f, 'true' if P.truth(u) else 'false')
        if t is int:
            pass
        if t is CSym: return fwrite(P, f, cat((Run((u,)),)))
    k = ('fmt', kind, P.key(u))
    if t is int:
        # integers and chars share the representation: the caller passes chars through new_display too
        return fwrite(P, f, (f.alt and {'upper_hex': '0x', 'lower_hex': '0x', 'binary': '0b', 'octal': '0o'}.get(kind, '') or '') + INTFMT[kind](u))
    if k not in P.memo:
        P.memo[k] = SSym(P, '%s(%s)' % (kind, vstr(P, u)), ('fmt', kind, u))
    return fwrite(P, f, P.memo[k])
INTFMT = {'display': lambda u: str(u), 'debug': lambda u: str(u), 'upper_hex': lambda u: '%X' % u, 'lower_hex': lambda u: '%x' % u, 'binary': lambda u: bin(u)[2:], 'octal': lambda u: oct(u)[2:]}

def fargs_template(P, tb, args):
    """decode the compact template of format_args!"""
    out = []; i = 0; n = 0
    while i < len(tb):
        c = tb[i]; i += 1
        if c == 0: break
        if c < 128: out.append(bytes(tb[i:i+c]).decode('utf8', 'replace')); i += c
        elif c == 128:
            ln = tb[i] | tb[i+1] << 8; i += 2
            out.append(bytes(tb[i:i+ln]).decode('utf8', 'replace')); i += ln
        else:
            flags = None; ix = n; w = None; pr = None
            if c & 1: flags = tb[i] | tb[i+1] << 8 | tb[i+2] << 16 | tb[i+3] << 24; i += 4
            if c & 2: w = tb[i] | tb[i+1] << 8; i += 2
            if c & 4: pr = tb[i] | tb[i+1] << 8; i += 2
            if c & 8: ix = tb[i] | tb[i+1] << 8; i += 2
            n = ix + 1
            out.append((args[ix], flags, w, pr))
    return out

@m('Arguments.new')
def _(P, a, d, dt, at):
    tb = P.un(a[0])
    if tb.__class__ is not Seq: raise EngineError('template')
    args = list(P.un(a[1]).i)
    return FArgs(fargs_template(P, list(tb.i), args))
@m('Arguments.from_str', 'Arguments.from_str_nonconst', 'Arguments.new_const')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    return FArgs([v] if v.__class__ in STRT else list(v.i))
@m('Arguments.as_str')
def _(P, a, d, dt, at): P.imp('Arguments::as_str'); return NONE
def mkarg(kind):
    def f(P, a, d, dt, at):
        v = a[0]
        x = of_type(P, v, at)
        if x.__class__ is str and kind in ('display', 'debug'): return FArg(x if kind == 'display' else repr(x), 'display')
        return FArg(v if x is None else x, kind)
    return f
for _k in ('display', 'debug', 'upper_hex', 'lower_hex', 'binary', 'octal', 'lower_exp', 'pointer'):
    M['Argument.new_' + _k] = mkarg(_k)
def fmt_args(P, fa, f):
    for p in fa.pieces:
        if p.__class__ in STRT:
            r = fwrite(P, f, p)
        else:
            arg, flags, w, pr = p
            arg = P.un(arg)
            g = f
            if arg.v.__class__ is str and arg.k == 'display': r = fwrite(P, f, arg.v)
            else:
                alt = bool(flags and flags & (1 << 23))
                if flags is not None or w is not None or f.alt:
                    g = Fmt(f.sink); g.out = f.out; g.alt = alt; g.failed = f.failed; g.after = f.after
                    if (w is not None or pr is not None):
                        # padded / truncated rendering: opaque term over the unpadded rendering
                        h = Fmt(); h.alt = alt
                        r = fmt_value(P, arg.v, arg.k, h)
                        if rslt(P, r)[0]: r = fwrite(P, f, sterm(P, 'pad%s.%s' % (w, pr), cat(h.out)))
                        if not rslt(P, r)[0]: return r
                        continue
                r = fmt_value(P, arg.v, arg.k, g)
                if g is not f: f.failed = g.failed; f.after = g.after
        k, e = rslt(P, r)
        if not k: return err(Adt('std::fmt::Error', 0, ()))
    return ok(UNIT)
def fmtof(P, v):
    x = P.un(v)
    if x.__class__ is Fmt: return x
    raise EngineError('formatter expected: %s' % x.__class__.__name__)
@m('Formatter.write_fmt', 'Write.write_fmt')
def _(P, a, d, dt, at):
    x = P.un(a[0])
    if x.__class__ in STRT:
        f = Fmt(); r = fmt_args(P, P.un(a[1]), f)
        P.wr(toref(P, a[0]), cat([x] + f.out)); return r
    return fmt_args(P, P.un(a[1]), fmtof(P, a[0]))
@m('Formatter.write_str', 'Write.write_str', 'Formatter.pad')
def _(P, a, d, dt, at):
    x = P.un(a[0])
    if x.__class__ in STRT:
        P.wr(toref(P, a[0]), cat((x, S(P, a[1])))); return ok(UNIT)
    return fwrite(P, fmtof(P, a[0]), S(P, a[1]))
@m('Formatter.write_char', 'Write.write_char')
def _(P, a, d, dt, at):
    c = cat((Run((P.un(a[1]),)),))
    x = P.un(a[0])
    if x.__class__ in STRT:
        P.wr(toref(P, a[0]), cat((x, c))); return ok(UNIT)
    return fwrite(P, fmtof(P, a[0]), c)
@m('Formatter.alternate')
def _(P, a, d, dt, at):
    f = fmtof(P, a[0])
    if f.alt is None: f.alt = P.choose(2, '{:#} requested') == 0
    return f.alt
@m('Display.fmt', 'Debug.fmt', 'UpperHex.fmt', 'LowerHex.fmt')
def _(P, a, d, dt, at):
    x = of_type(P, a[0], at)
    return fmt_value(P, a[0] if x is None else x, {'Display': 'display', 'Debug': 'debug', 'UpperHex': 'upper_hex', 'LowerHex': 'lower_hex'}[short(d['tr'])], fmtof(P, a[1]))
@m('ToString.to_string', '*.spec_to_string')
def _(P, a, d, dt, at):
    u = P.un(a[0])
    if u.__class__ in STRT: return u
    x = of_type(P, u, at)
    if x.__class__ in STRT: return x
    return to_str(P, u if x is None else x)
@m('fmt.format', '*.format')
def _(P, a, d, dt, at):
    f = Fmt(); r = fmt_args(P, P.un(a[0]), f)
    if not rslt(P, r)[0]: P.panic('a formatting trait implementation returned an error', 'fmt')
    return cat(f.out)
for _n in ('debug_struct_field1_finish', 'debug_struct_field2_finish', 'debug_struct_field3_finish', 'debug_struct_field4_finish', 'debug_struct_field5_finish',
           'debug_struct_fields_finish', 'debug_tuple_field1_finish', 'debug_tuple_field2_finish', 'debug_tuple_field3_finish', 'debug_tuple_fields_finish', 'debug_c_like_enum_write_str'):
    M['Formatter.' + _n] = lambda P, a, d, dt, at: fwrite(P, fmtof(P, a[0]), SSym(P, 'derived Debug'))

# ------------------------------------------------------------------ panics
def pan(P, a, d, dt, at):
    msg = d['n']
    for x in a:
        u = P.un(x)
        if u.__class__ in STRT: msg = sstr(u)
        if u.__class__ is FArgs: msg = ''.join(p if p.__class__ is str else '{}' for p in u.pieces)
    P.panic(msg, 'panic')
for _n in ('panic', 'panic_fmt', 'panic_display', 'panic_str_literal', 'panic_explicit', 'unreachable_display', 'begin_panic', 'panic_nounwind', 'panic_str_2015',
           'assert_failed', 'assert_failed_inner', 'panic_bounds_check', 'unwrap_failed', 'expect_failed', 'unimplemented', 'todo'):
    M['*.' + _n] = pan
@m('*.unimplemented_default_msg')
def _(P, a, d, dt, at): return 'not implemented'
@m('*.abort', '*.exit')
def _(P, a, d, dt, at): P.panic('process ' + d['n'], 'abort')

# ------------------------------------------------------------------ log
@m('*.max_level', 'log.max_level')
def _(P, a, d, dt, at): return Opq(P, 'log::max_level')
@m('__private_api.log', '__private_api.loc', '__private_api.enabled')
def _(P, a, d, dt, at): return UNIT

# ------------------------------------------------------------------ statics
@m('OnceLock.new', 'OnceCell.new', 'LazyLock.new')
def _(P, a, d, dt, at): return RCell(P, NONE if not a else a[0])
@m('OnceLock.get_or_init', 'OnceCell.get_or_init')
def _(P, a, d, dt, at):
    k = ('once', P.key(a[0]))
    v = P.un(a[0])
    k = ('once', v.what if v.__class__ is Opq else v.id if v.__class__ is RCell else P.key(v))
    if k not in P.consts: P.consts[k] = Cell(P.callv(a[1], []))
    return Ref(P.consts[k])

# ------------------------------------------------------------------ function values
@m('FnOnce.call_once', 'Fn.call', 'FnMut.call_mut')
def _(P, a, d, dt, at):
    return P.callv(a[0], list(P.un1(a[1]).f))
import stdx
import rx

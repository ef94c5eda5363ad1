"""further models of the standard library: orders, sorting, sorted maps, map entries, comparisons of sequences"""
from core import *
from stdm import *
from stdm import M, m
from interp import vs
import stdm

# ------------------------------------------------------------------ orders
def bare(v):
    v = res(v)
    return v.__class__ is SSym
def cmpv(P, x, y):
    """-1, 0 or 1 (partitions the states)"""
    x = P.un(x); y = P.un(y)
    num = (int, Lin, CSym)
    if x.__class__ is bool or y.__class__ is bool or (x.__class__ is Sym and x.ty == 'bool') or (y.__class__ is Sym and y.ty == 'bool'):
        x, y = int(P.truth(x)), int(P.truth(y)); return (x > y) - (x < y)
    if x.__class__ in num and y.__class__ in num:
        if P.truth(P.binop('Lt', x, y)): return -1
        return 0 if P.truth(P.binop('Eq', x, y)) else 1
    if x.__class__ is str and y.__class__ is str: return (x > y) - (x < y)
    if x.__class__ in STRT and y.__class__ in STRT:
        if P.s_eq(x, y): return 0
        if x.__class__ is str and x == '': return -1
        if y.__class__ is str and y == '': return 1
        a, b = P.key(x), P.key(y)
        g = P.memo.setdefault('string order', set())
        def below(u, v, seen):
            return u == v or any(s == u and t not in seen and below(t, v, seen | {t}) for s, t in g)
        if below(a, b, {a}): return -1
        if below(b, a, {b}): return 1
        if not (bare(x) and bare(y)): P.imp('order of strings')
        if P.choose(2, '%s before %s' % (vs(x), vs(y))) == 0: g.add((a, b)); return -1
        g.add((b, a)); return 1
    if x.__class__ is Tup and y.__class__ is Tup:
        for u, v in zip(x.f, y.f):
            c = cmpv(P, u, v)
            if c: return c
        return 0
    if x.__class__ is Seq and y.__class__ is Seq:
        ia, ib = x.i, y.i
        while True:
            fa, u, ia = P.first(ia); fb, v, ib = P.first(ib)
            if not fa: return -1 if fb else 0
            if not fb: return 1
            c = cmpv(P, u, v)
            if c: return c
    if x.__class__ in (Adt, Sym) and y.__class__ in (Adt, Sym):
        p = x.p if x.__class__ is Adt else x.ty
        k = P.local_impl('Ord', 'cmp', p) or None
        if k: return P.variant(P.call(k, [Ref(Cell(x)), Ref(Cell(y))])) - 1
        if p in (OPTION, RESULT, ORDERING) :
            a, b = P.variant(x), P.variant(y)
            if a != b: return -1 if a < b else 1
            x, y = res(x), res(y)
            for u, v in zip(x.f, y.f):
                c = cmpv(P, u, v)
                if c: return c
            return 0
        if short(p) == 'Reverse':
            return cmpv(P, res(y).f[0], res(x).f[0])
    if P.same(x, y): return 0
    P.imp('order of %s and %s' % (x.__class__.__name__, y.__class__.__name__))
    return P.choose(3, 'order') - 1
ORDERING = 'std::cmp::Ordering'

@m('Ord.cmp', 'PartialOrd.partial_cmp')
def _(P, a, d, dt, at):
    o = ordering(cmpv(P, a[0], a[1]))
    return some(o) if d['n'] == 'partial_cmp' else o
_lt = M['PartialOrd.lt']
@m('PartialOrd.lt', 'PartialOrd.le', 'PartialOrd.gt', 'PartialOrd.ge')
def _(P, a, d, dt, at):
    x = P.un(a[0]); y = P.un(a[1])
    if x.__class__ in STRT and y.__class__ in STRT or x.__class__ in (Tup, Seq, bool) or \
       x.__class__ in (Adt, Sym) and y.__class__ in (Adt, Sym) and not (x.p if x.__class__ is Adt else x.ty).startswith('log::') and not (y.p if y.__class__ is Adt else y.ty).startswith('log::'):
        c = cmpv(P, x, y)
        return {'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[d['n']]
    return _lt(P, a, d, dt, at)
@m('Ord.min', 'Ord.max', 'cmp.min', 'cmp.max')
def _(P, a, d, dt, at):
    c = cmpv(P, a[0], a[1])
    return (a[0] if c <= 0 else a[1]) if d['n'] == 'min' else (a[1] if c <= 0 else a[0])
@m('Ord.clamp')
def _(P, a, d, dt, at):
    if cmpv(P, a[0], a[1]) < 0: return a[1]
    return a[2] if cmpv(P, a[0], a[2]) > 0 else a[0]
@m('Ordering.reverse')
def _(P, a, d, dt, at): return ordering(1 - P.variant(a[0]))
@m('Ordering.is_lt', 'Ordering.is_le', 'Ordering.is_gt', 'Ordering.is_ge')
def _(P, a, d, dt, at):
    c = P.variant(a[0]) - 1
    return {'is_lt': c < 0, 'is_le': c <= 0, 'is_gt': c > 0, 'is_ge': c >= 0}[d['n']]
@m('Ordering.then')
def _(P, a, d, dt, at): return a[0] if P.variant(a[0]) != 1 else a[1]
@m('Ordering.then_with')
def _(P, a, d, dt, at): return a[0] if P.variant(a[0]) != 1 else P.callv(a[1], [])

def comparer(P, how, f):
    if how == 'by': return lambda x, y: P.variant(P.callv(f, [refto(x), refto(y)])) - 1
    if how == 'key': return lambda x, y: cmpv(P, P.callv(f, [refto(x)]), P.callv(f, [refto(y)]))
    return lambda x, y: cmpv(P, x, y)
def how(n): return 'key' if n.endswith('_key') else 'by' if n.endswith('_by') else ''

@m('slice.sort', 'slice.sort_unstable', 'slice.sort_by', 'slice.sort_unstable_by', 'slice.sort_by_key', 'slice.sort_unstable_by_key', 'slice.sort_by_cached_key')
def _(P, a, d, dt, at):
    n = d['n'].replace('_cached', '')
    c = comparer(P, how(n), a[1] if len(a) > 1 else None)
    out = []
    for x in P.force(seqof(P, a[0]).i):
        k = len(out)
        while k > 0 and c(out[k - 1], x) > 0: k -= 1
        out.insert(k, x)
    vw(P, a[0], out); return UNIT
@m('Iterator.max', 'Iterator.min', 'Iterator.max_by_key', 'Iterator.min_by_key', 'Iterator.max_by', 'Iterator.min_by')
def _(P, a, d, dt, at):
    n = d['n']; f = a[1] if len(a) > 1 else None
    best = None
    for x in drain_it(P, as_it(P, a[0])):
        k = P.callv(f, [refto(x)]) if how(n) == 'key' else x
        if best is None: best = (k, x); continue
        c = comparer(P, 'by', f)(k, best[0]) if how(n) == 'by' else cmpv(P, k, best[0])
        if c >= 0 if n.startswith('max') else c < 0: best = (k, x)
    return NONE if best is None else some(best[1])
@m('Iterator.is_sorted', 'slice.is_sorted', 'Iterator.is_sorted_by_key', 'slice.is_sorted_by_key')
def _(P, a, d, dt, at):
    last = None
    for x in drain_it(P, as_it(P, a[0])):
        k = P.callv(a[1], [refto(x) if d['ist' if False else 'n'] and False else x]) if len(a) > 1 else x
        if last is not None and cmpv(P, last[0], k) > 0: return False
        last = (k,)
    return True
@m('slice.binary_search', 'slice.binary_search_by', 'slice.binary_search_by_key')
def _(P, a, d, dt, at):
    n = d['n']
    for i, x in enumerate(P.force(seqof(P, a[0]).i)):
        if n == 'binary_search': c = cmpv(P, x, a[1])
        elif n.endswith('_key'): c = cmpv(P, P.callv(a[2], [refto(x)]), a[1])
        else: c = P.variant(P.callv(a[1], [refto(x)])) - 1
        if c == 0: return ok(i)
        if c > 0: return err(i)
    return err(items_len(seqof(P, a[0]).i))
@m('slice.partition_point')
def _(P, a, d, dt, at):
    n = 0
    for x in P.force(seqof(P, a[0]).i):
        if not P.truth(P.callv(a[1], [refto(x)])): return n
        n += 1
    return n

# ------------------------------------------------------------------ sequences
@m('Vec.dedup_by_key', 'Vec.dedup_by')
def _(P, a, d, dt, at):
    out = []
    for x in P.force(seqof(P, a[0]).i):
        if out:
            if d['n'] == 'dedup_by': same = P.truth(P.callv(a[1], [refto(x), refto(out[-1])]))
            else: same = P.veq(P.callv(a[1], [refto(x)]), P.callv(a[1], [refto(out[-1])]))
            if same: continue
        out.append(x)
    vw(P, a[0], out); return UNIT
@m('slice.windows')
def _(P, a, d, dt, at):
    n = res(a[1]); it = P.force(seqof(P, a[0]).i)
    if n.__class__ is not int: P.imp('windows'); n = 2
    if n == 0: P.panic('window size must be non-zero', 'panic')
    return It('items', tuple(Ref(Cell(Seq(tuple(it[i:i + n])))) for i in range(len(it) - n + 1)))
@m('slice.chunks', 'slice.chunks_exact')
def _(P, a, d, dt, at):
    n = res(a[1]); it = P.force(seqof(P, a[0]).i)
    if n.__class__ is not int: P.imp('chunks'); n = 2
    if n == 0: P.panic('chunk size must be non-zero', 'panic')
    return It('items', tuple(Ref(Cell(Seq(tuple(it[i:i + n])))) for i in range(0, len(it), n) if d['n'] == 'chunks' or i + n <= len(it)))
@m('slice.rotate_left', 'slice.rotate_right')
def _(P, a, d, dt, at):
    it = tuple(P.force(seqof(P, a[0]).i)); n = res(a[1])
    if n.__class__ is not int:
        for i in range(len(it) + 1):
            if P.eq0(ladd(n, -i)): n = i; break
        else: P.panic('rotation out of range', 'bounds')
    if n > len(it): P.panic('rotation out of range', 'bounds')
    if d['n'] == 'rotate_right': n = len(it) - n
    vw(P, a[0], it[n:] + it[:n]); return UNIT
@m('slice.fill')
def _(P, a, d, dt, at):
    vw(P, a[0], [clone(P, a[1]) for _ in P.force(seqof(P, a[0]).i)]); return UNIT
@m('slice.ends_with')
def _(P, a, d, dt, at):
    ia, ib = seqof(P, a[0]).i, seqof(P, a[1]).i
    while True:
        fb, y, ib = P.last(ib)
        if not fb: return True
        fa, x, ia = P.last(ia)
        if not fa or not P.veq(x, y): return False
@m('Vec.resize')
def _(P, a, d, dt, at):
    n = res(a[1]); it = tuple(P.force(seqof(P, a[0]).i))
    if n.__class__ is not int: P.imp('resize'); return UNIT
    vw(P, a[0], it[:n] + tuple(clone(P, a[2]) for _ in range(n - len(it)))); return UNIT
@m('Vec.pop_if')
def _(P, a, d, dt, at):
    f, x, rest = P.last(seqof(P, a[0]).i)
    if not f or not P.truth(P.callv(a[1], [refto(x)])): return NONE
    vw(P, a[0], rest); return some(x)
M['VecDeque.clear'] = M['Vec.clear']; M['VecDeque.drain'] = M['Vec.drain']; M['VecDeque.append'] = M['Vec.append']
M['VecDeque.with_capacity'] = M['Vec.new']; M['VecDeque.retain'] = M['Vec.retain']; M['VecDeque.insert'] = M['Vec.insert']; M['VecDeque.truncate'] = M['Vec.truncate']
M['VecDeque.get_mut'] = M['slice.get_mut']
M['VecDeque.make_contiguous'] = M['Vec.as_mut_slice']; M['VecDeque.into_iter'] = M['Vec.into_iter']
@m('VecDeque.remove')
def _(P, a, d, dt, at):
    it, k = P.locate(seqof(P, a[0]).i, res(a[1]))
    if k is None: return NONE
    vw(P, a[0], it[:k] + it[k+1:]); return some(it[k])
@m('iter.zip')
def _(P, a, d, dt, at): return It('zip', as_it(P, a[0]), as_it(P, a[1]))
@m('iter.repeat_n')
def _(P, a, d, dt, at): return It('take', It('repeat', a[0]), a[1])
@m('iter.once_with')
def _(P, a, d, dt, at): return It('items', (P.callv(a[0], []),))
@m('Iterator.eq', 'Iterator.ne', 'Iterator.lt', 'Iterator.le', 'Iterator.gt', 'Iterator.ge', 'Iterator.cmp', 'Iterator.partial_cmp')
def _(P, a, d, dt, at):
    x, y = as_it(P, a[0]), as_it(P, a[1]); n = d['n']
    while True:
        fx, u, x = inext(P, x); fy, v, y = inext(P, y)
        if not fx or not fy: c = int(fx) - int(fy); break
        if n in ('eq', 'ne'):
            c = 0 if P.veq(u, v) else 2
        else: c = cmpv(P, u, v)
        if c: break
    if n in ('cmp', 'partial_cmp'): return ordering(c) if n == 'cmp' else some(ordering(c))
    return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[n]
@m('DoubleEndedIterator.rfold')
def _(P, a, d, dt, at):
    it = as_it(P, a[0]); acc = a[1]
    while True:
        f, x, it = iback(P, it)
        if not f: return acc
        acc = P.callv(a[2], [acc, x])
@m('DoubleEndedIterator.nth_back')
def _(P, a, d, dt, at):
    it, back = consume(P, a[0]); n = res(a[1]); i = 0
    while True:
        f, x, it = iback(P, it)
        if not f: back(it); return NONE
        if P.eq0(ladd(n, -i)): back(it); return some(x)
        i += 1
@m('Iterator.product')
def _(P, a, d, dt, at):
    r = 1
    for x in drain_it(P, as_it(P, a[0])): r = P.binop('Mul', r, P.un(x))
    return r

# ------------------------------------------------------------------ sorted maps keep their entries in order
def sorted_insert(P, mm, k, v):
    i, mm = P.map_lookup(mm, k)
    e = list(mm.e)
    if i is not None:
        old = e[i][1]; e[i] = (e[i][0], v); return MapV(tuple(e), mm.g), (old,)
    if mm.g is not None: P.imp('sorted map summary')
    i = 0
    while i < len(e) and cmpv(P, e[i][0], k) < 0: i += 1
    e.insert(i, (k, v))
    return MapV(tuple(e), mm.g), None
@m('BTreeMap.insert')
def _(P, a, d, dt, at):
    mm, old = sorted_insert(P, mapof(P, a[0]), a[1], a[2]); P.wr(toref(P, a[0]), mm)
    return NONE if old is None else some(old[0])
@m('BTreeSet.insert')
def _(P, a, d, dt, at):
    mm, old = sorted_insert(P, mapof(P, a[0]), a[1], UNIT); P.wr(toref(P, a[0]), mm)
    return old is None
for _n in ('retain', 'iter_mut', 'values_mut', 'clear', 'get_key_value', 'remove_entry', 'into_keys', 'into_values'):
    M['BTreeMap.' + _n] = M['HashMap.' + _n]
M['BTreeSet.is_empty'] = M['HashSet.is_empty']; M['BTreeSet.len'] = M['HashSet.len']; M['BTreeSet.clear'] = M['HashMap.clear']; M['HashSet.clear'] = M['HashMap.clear']
def edge(last, take, key):
    def f(P, a, d, dt, at):
        mm = P.map_flat(mapof(P, a[0]))
        if mm.g is not None: P.imp('sorted map summary')
        if not mm.e: return NONE
        k, v = mm.e[-1 if last else 0]
        if take:
            P.wr(toref(P, a[0]), MapV(mm.e[:-1] if last else mm.e[1:], mm.g))
            return some(k if key else Tup((k, v)))
        return some(refto(k) if key else Tup((refto(k), refto(v))))
    return f
for _l, _w in ((False, 'first'), (True, 'last')):
    M['BTreeMap.%s_key_value' % _w] = edge(_l, False, False); M['BTreeMap.pop_%s' % _w] = edge(_l, True, False)
    M['BTreeSet.%s' % _w] = edge(_l, False, True); M['BTreeSet.pop_%s' % _w] = edge(_l, True, True)

# ------------------------------------------------------------------ entries of maps
def is_tree(d): return 'BTreeMap' in (d.get('p') or '') or 'btree' in (d.get('p') or '')
@m('HashMap.entry', 'BTreeMap.entry')
def _(P, a, d, dt, at):
    i, mm = P.map_lookup(mapof(P, a[0]), a[1])
    r = toref(P, a[0])
    r.c.v = P.setp(r.c.v, r.p, mm) if r.p else mm
    e = It('entry', r, i, a[1], stdm.container(d) == 'BTreeMap')
    p = P.prog.T[dt].get('p') if dt is not None else None
    ad = P.prog.adts.get(p)
    if ad is None: return Adt('std::collections::hash_map::Entry', 0 if i is not None else 1, (e,))
    want = 'Occupied' if i is not None else 'Vacant'
    vi = [v['n'] for v in ad['v']].index(want)
    return Adt(p, vi, (e,))
def ent(P, v):
    v = P.un(v)
    while v.__class__ is Adt: v = P.un(v.f[0])
    return v
def entry_ins(P, e, v):
    r, i, k, tree = e.d
    if tree:
        mm, _o = sorted_insert(P, P.un(r), k, v); P.wr(r, mm)
        i, mm = P.map_lookup(mm, k)
        return Ref(r.c, r.p + (('mv', i),))
    mm = P.map_flat(P.un(r))
    P.wr(r, MapV(mm.e + ((k, v),), mm.g))
    return Ref(r.c, r.p + (('mv', len(mm.e)),))
@m('Entry.or_insert', 'Entry.or_insert_with', 'Entry.or_default', 'Entry.or_insert_with_key')
def _(P, a, d, dt, at):
    e = ent(P, a[0]); r, i, k, tree = e.d
    if i is not None: return Ref(r.c, r.p + (('mv', i),))
    n = d['n']
    if n == 'or_default': v = default_of(P, P.prog.T[dt]['e'])
    else: v = a[1] if n == 'or_insert' else P.callv(a[1], [refto(k)] if n.endswith('key') else [])
    return entry_ins(P, e, v)
@m('Entry.and_modify')
def _(P, a, d, dt, at):
    e = ent(P, a[0]); r, i, k, tree = e.d
    if i is not None: P.callv(a[1], [Ref(r.c, r.p + (('mv', i),))])
    return a[0]
@m('Entry.key', 'OccupiedEntry.key', 'VacantEntry.key', 'VacantEntry.into_key')
def _(P, a, d, dt, at):
    k = ent(P, a[0]).d[2]; return k if d['n'] == 'into_key' else refto(k)
@m('OccupiedEntry.get', 'OccupiedEntry.get_mut', 'OccupiedEntry.into_mut')
def _(P, a, d, dt, at):
    r, i, k, tree = ent(P, a[0]).d; return Ref(r.c, r.p + (('mv', i),))
@m('OccupiedEntry.insert')
def _(P, a, d, dt, at):
    r, i, k, tree = ent(P, a[0]).d; q = Ref(r.c, r.p + (('mv', i),)); v = P.rd(q); P.wr(q, a[1]); return v
@m('OccupiedEntry.remove', 'OccupiedEntry.remove_entry')
def _(P, a, d, dt, at):
    r, i, k, tree = ent(P, a[0]).d
    x = map_remove(P, [r, refto(k)])
    return x[1] if d['n'] == 'remove' else Tup(x)
@m('VacantEntry.insert', 'Entry.insert_entry', 'VacantEntry.insert_entry')
def _(P, a, d, dt, at):
    e = ent(P, a[0])
    if e.d[1] is not None:
        r, i, k, tree = e.d; q = Ref(r.c, r.p + (('mv', i),)); P.wr(q, a[1])
    else: q = entry_ins(P, e, a[1])
    if d['n'] == 'insert': return q
    r, i, k, tree = e.d
    return It('entry', r, q.p[-1][1], k, tree)

# ------------------------------------------------------------------ cells, numbers, characters, strings
@m('RefCell.take', 'Cell.take')
def _(P, a, d, dt, at):
    c = rcell(P, a[0])
    if c.wr or c.rd: P.panic('already borrowed', 'borrow')
    r = Ref(c.c); v = P.rd(r); P.wr(r, default_of(P, dt)); return v
@m('RefCell.replace_with')
def _(P, a, d, dt, at):
    c = rcell(P, a[0])
    if c.wr or c.rd: P.panic('already borrowed', 'borrow')
    r = Ref(c.c); v = P.rd(r); P.wr(r, P.callv(a[1], [r])); return v
@m('RefCell.swap', 'Cell.swap')
def _(P, a, d, dt, at):
    c, e = rcell(P, a[0]), rcell(P, a[1])
    if c.wr or c.rd or e.wr or e.rd: P.panic('already borrowed', 'borrow')
    x, y = P.rd(Ref(c.c)), P.rd(Ref(e.c)); P.wr(Ref(c.c), y); P.wr(Ref(e.c), x); return UNIT
@m('mem.discriminant')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    if v.__class__ is Sym and v.dom is not None: return DSym(v)
    return P.prog.adts[res(v).p]['v'][P.variant(v)]['d']
@m('int.pow')
def _(P, a, d, dt, at):
    x, n = res(a[0]), res(a[1])
    if x.__class__ is int and n.__class__ is int:
        r = x ** n; lo, hi = it_range(P, at, d)
        if not lo <= r <= hi: P.panic('arithmetic overflow', 'overflow')
        return r
    P.imp('pow'); return Opq(P, 'pow')
@m('int.is_multiple_of')
def _(P, a, d, dt, at): return P.truth(P.binop('Eq', P.binop('Rem', res(a[0]), res(a[1])), 0))
@m('int.rem_euclid', 'int.div_euclid', 'int.wrapping_rem', 'int.wrapping_div')
def _(P, a, d, dt, at): return P.binop('Rem' if 'rem' in d['n'] else 'Div', res(a[0]), res(a[1]))
@m('int.count_ones')
def _(P, a, d, dt, at):
    v = res(a[0])
    v = P.conc(v) if v.__class__ is Bits else v
    if v.__class__ is int: return bin(v).count('1')
    P.imp('count_ones'); return Opq(P, 'count_ones')
@m('int.saturating_mul', 'int.wrapping_mul', 'int.checked_mul')
def _(P, a, d, dt, at):
    lo, hi = it_range(P, at, d)
    r = P.binop('Mul', res(a[0]), res(a[1]))
    if r.__class__ not in (int, Lin): return some(r) if d['n'].startswith('checked') else r
    if P.ge0(ladd(hi, r, -1)): return some(r) if d['n'].startswith('checked') else r
    if d['n'].startswith('checked'): return NONE
    if d['n'].startswith('sat'): return hi
    P.imp('wrapping'); return Opq(P, 'wrapping')
@m('String.split_off')
def _(P, a, d, dt, at):
    s = S(P, a[0]); i = res(a[1])
    pre = P.s_slice(s, 0, i); post = P.s_slice(s, i, None)
    P.wr(toref(P, a[0]), pre); return post
@m('String.retain')
def _(P, a, d, dt, at):
    out = tuple(c for c in P.force(P.chars(S(P, a[0]))) if P.truth(P.callv(a[1], [c])))
    P.wr(toref(P, a[0]), cat((Run(out),)) if out else ''); return UNIT

# ------------------------------------------------------------------ constant strings
def const(P, v):
    s = S(P, v)
    return s if s.__class__ is str else None
def pat(P, v):
    v = P.un(v)
    if v.__class__ is int: return chr(v)
    return v if v.__class__ is str else None
def constant(names, f, nargs=1):
    for n in names:
        old = M.get(n)
        def g(P, a, d, dt, at, old=old, n=n):
            s = const(P, a[0])
            ps = [pat(P, x) for x in a[1:nargs]]
            if s is not None and all(p is not None for p in ps): return f(P, s, ps, a[nargs:])
            if old is not None: return old(P, a, d, dt, at)
            P.imp('call of ' + n); return P.fresh_t(dt, n)
        M[n] = g
def pieces(l): return It('items', tuple(l))
WS = ' \t\n\v\f\r\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
def words(s, ws):
    out = []; cur = ''
    for ch in s + ' ':
        if ch in ws:
            if cur: out.append(cur)
            cur = ''
        else: cur += ch
    return out
def lines(s):
    l = s.split('\n')
    if l[-1] == '': l.pop()
    return [x[:-1] if x.endswith('\r') and i < len(l) - (0 if s.endswith('\n') else 1) else x for i, x in enumerate(l)]
def occurrences(s, p):
    out = []; i = 0
    while p and (i := s.find(p, i)) >= 0: out.append((len(s[:i].encode()), p)); i += len(p)
    return out
constant(['str.split_whitespace'], lambda P, s, p, r: pieces(words(s, WS)))
constant(['str.split_ascii_whitespace'], lambda P, s, p, r: pieces(words(s, ' \t\n\f\r')))
constant(['str.lines'], lambda P, s, p, r: pieces(lines(s)))
constant(['str.matches'], lambda P, s, p, r: pieces([x for _i, x in occurrences(s, p[0])]), 2)
constant(['str.match_indices'], lambda P, s, p, r: pieces([Tup(x) for x in occurrences(s, p[0])]), 2)
constant(['str.replacen'], lambda P, s, p, r: s.replace(p[0], p[1], res(r[0])) if res(r[0]).__class__ is int else s, 3)
_parse = M['str.parse']
@m('str.parse', 'FromStr.from_str')
def _(P, a, d, dt, at):
    s = const(P, a[0]); t = P.prog.T[dt] if dt is not None else None
    if s is not None and t and t.get('p') == RESULT:
        tt = P.prog.T[t['a'][0]]
        if tt['k'] in ('int', 'uint'):
            import re
            lo, hi = it_range_of(tt)
            if re.fullmatch(r'[+-]?[0-9]+' if lo < 0 else r'[+]?[0-9]+', s) and lo <= int(s) <= hi: return ok(int(s))
            return err(Opq(P, 'ParseIntError'))
        if tt['k'] == 'bool': return ok(s == 'true') if s in ('true', 'false') else err(Opq(P, 'ParseBoolError'))
        if tt['k'] == 'char': return ok(ord(s)) if len(s) == 1 else err(Opq(P, 'ParseCharError'))
    return _parse(P, a, d, dt, at)
def it_range_of(t):
    import interp
    return interp.RANGES[t['n']]
_radix = M['int.from_str_radix']
@m('int.from_str_radix')
def _(P, a, d, dt, at):
    s = const(P, a[0]); b = res(a[1])
    if s is not None and b.__class__ is int:
        lo, hi = it_range_of(P.prog.T[P.prog.T[dt]['a'][0]])
        t = s[1:] if s[:1] == '+' or s[:1] == '-' and lo < 0 else s
        try:
            if not t.isalnum() or not t.isascii(): raise ValueError
            n = int(t, b) * (-1 if s[:1] == '-' else 1)
            if lo <= n <= hi: return ok(n)
        except ValueError: pass
        return err(Opq(P, 'ParseIntError'))
    return _radix(P, a, d, dt, at)
@m('int.abs', 'int.unsigned_abs')
def _(P, a, d, dt, at):
    v = res(a[0]); return v if P.ge0(v) else lmul(v, -1)
@m('int.signum')
def _(P, a, d, dt, at):
    v = res(a[0])
    return 0 if P.eq0(v) else 1 if P.ge0(v) else -1
@m('slice.map', 'array.map')
def _(P, a, d, dt, at): return Seq(tuple(P.callv(a[1], [x]) for x in P.force(seqof(P, a[0]).i)))
_add = M['Add.add']
@m('Add.add')
def _(P, a, d, dt, at):
    x, y = (P.un(v) for v in a)
    if x.__class__ is Adt and short(x.p) == 'Cow' or y.__class__ is Adt and short(y.p) == 'Cow': return cat((S(P, x), S(P, y)))
    return _add(P, a, d, dt, at)
_join = M['slice.join']
@m('slice.join', 'slice.concat')
def _(P, a, d, dt, at):
    it = P.force(seqof(P, a[0]).i)
    if it and P.un(it[0]).__class__ is Seq:
        out = ()
        for i, x in enumerate(it):
            if i and len(a) > 1:
                z = P.un(a[1]); out += z.i if z.__class__ is Seq else (clone(P, z),)
            out += clone(P, P.un(x)).i
        return Seq(out)
    return _join(P, a, d, dt, at)

# ------------------------------------------------------------------ maps as values
_collect = stdm.collect_into
def collect_into(P, it, ti):
    t = P.prog.T[ti]
    s = short(t['p']) if t['k'] == 'adt' else ''
    if s not in ('BTreeMap', 'BTreeSet'): return _collect(P, it, ti)
    mm = MapV((), None)
    for x in drain_it(P, it):
        k, v = (P.getf(x, 0), P.getf(x, 1)) if s == 'BTreeMap' else (x, UNIT)
        mm, _o = sorted_insert(P, mm, k, v)
    return mm
stdm.collect_into = collect_into
_eq = M['PartialEq.eq']
def map_eq(P, x, y):
    x, y = P.map_flat(x), P.map_flat(y)
    if x.g is not None or y.g is not None:
        if x.g is y.g and len(x.e) == len(y.e) and all(P.key(a) == P.key(b) for a, b in zip(x.e, y.e)): return True
        P.imp('equality of map summaries'); return P.memo_bool(('mapeq', id(x), id(y)), 'maps equal')
    if len(x.e) != len(y.e): return False
    for k, v in x.e:
        i, _m = P.map_lookup(y, k)
        if i is None or not P.veq(v, y.e[i][1]): return False
    return True
_tu = M['Rc.try_unwrap']
@m('Rc.try_unwrap')
def _(P, a, d, dt, at):
    P.imp('reference count'); return _tu(P, a, d, dt, at)

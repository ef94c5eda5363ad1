"""model of the regex crate for constant patterns: leftmost-first matching over a text of known length whose characters are
known or sets of code points (every question about a character splits the states)"""
from core import *
from stdm import *
from stdm import M, m
from interp import iv_union, iv_sub
import stdm, unicodedata

ALL = [(0, 0x10FFFF)]
_cats = {}
def category(*names):
    """the code points whose general category starts with one of the names"""
    k = tuple(names)
    if k not in _cats:
        out = []; lo = None
        for c in range(0x110000):
            y = unicodedata.category(chr(c)).startswith(k)
            if y and lo is None: lo = c
            elif not y and lo is not None: out.append((lo, c - 1)); lo = None
        if lo is not None: out.append((lo, 0x10FFFF))
        _cats[k] = out
    return _cats[k]
def digits(): return category('Nd')
def words(): return iv_union(category('L', 'M', 'Nd', 'Nl', 'Pc') + [(0x200C, 0x200D)])
class Bad(Exception): pass

class Parser:
    def __init__(self, s): self.s = s; self.i = 0; self.n = 0; self.names = {}
    def peek(self): return self.s[self.i] if self.i < len(self.s) else ''
    def eat(self, t):
        if self.s.startswith(t, self.i): self.i += len(t); return True
        return False
    def alt(self):
        out = [self.seq()]
        while self.eat('|'): out.append(self.seq())
        return out[0] if len(out) == 1 else ('alt', out)
    def seq(self):
        out = []
        while self.peek() and self.peek() not in '|)':
            a = self.atom()
            while True:
                if self.eat('*'): lo, hi = 0, None
                elif self.eat('+'): lo, hi = 1, None
                elif self.eat('?'): lo, hi = 0, 1
                elif self.peek() == '{':
                    j = self.s.index('}', self.i); q = self.s[self.i + 1:j].split(','); self.i = j + 1
                    lo = int(q[0]); hi = lo if len(q) == 1 else int(q[1]) if q[1].strip() else None
                else: break
                a = ('rep', a, lo, hi, not self.eat('?'))
            out.append(a)
        return ('seq', out)
    def atom(self):
        if self.eat('(?:'): k = None
        elif self.eat('(?P<') or self.eat('(?<'):
            j = self.s.index('>', self.i); nm = self.s[self.i:j]; self.i = j + 1
            self.n += 1; k = self.n; self.names[nm] = k
        elif self.eat('(?'): raise Bad('flags')
        elif self.eat('('): self.n += 1; k = self.n
        elif self.eat('['): return ('set', self.cls())
        elif self.eat('.'): return ('set', iv_sub(ALL, [(10, 10)]))
        elif self.eat('^'): return ('bol',)
        elif self.eat('$'): return ('eol',)
        elif self.eat('\\'): return self.esc()
        else:
            c = self.s[self.i]; self.i += 1
            return ('set', [(ord(c), ord(c))])
        r = self.alt()
        if not self.eat(')'): raise Bad('unclosed group')
        return r if k is None else ('group', k, r)
    def esc(self):
        c = self.s[self.i]; self.i += 1
        if c == 'd': return ('set', digits())
        if c == 'D': return ('set', iv_sub(ALL, digits()))
        if c == 's': return ('set', stdm.WHITE)
        if c == 'S': return ('set', iv_sub(ALL, stdm.WHITE))
        if c == 'w': return ('set', words())
        if c == 'W': return ('set', iv_sub(ALL, words()))
        if c in 'pP':
            if self.eat('{'): j = self.s.index('}', self.i); nm = self.s[self.i:j]; self.i = j + 1
            else: nm = self.s[self.i]; self.i += 1
            if nm not in ('L', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'M', 'Mn', 'Mc', 'Me', 'N', 'Nd', 'Nl', 'No', 'P', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'S', 'Z', 'Zs', 'Zl', 'Zp', 'C', 'Cc', 'Cf'): raise Bad('class ' + nm)
            x = category(nm)
            return ('set', x if c == 'p' else iv_sub(ALL, x))
        if c in 'uxU':
            if self.eat('{'): j = self.s.index('}', self.i); h = self.s[self.i:j]; self.i = j + 1
            else: w = {'x': 2, 'u': 4, 'U': 8}[c]; h = self.s[self.i:self.i + w]; self.i += w
            v = int(h, 16); return ('set', [(v, v)])
        if c in 'nrtfv0a':
            v = {'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, '0': 0, 'a': 7}[c]; return ('set', [(v, v)])
        if c == 'A': return ('bol',)
        if c == 'z': return ('eol',)
        if c.isalnum(): raise Bad('escape ' + c)
        return ('set', [(ord(c), ord(c))])
    def cls(self):
        neg = self.eat('^'); out = []; first = True
        while True:
            c = self.peek()
            if not c: raise Bad('unclosed class')
            if c == ']' and not first: self.i += 1; break
            if c == '[' or self.s.startswith(('&&', '--', '~~'), self.i): raise Bad('nested class')
            first = False
            if self.eat('\\'): a = self.esc()[1]
            else: self.i += 1; a = [(ord(c), ord(c))]
            if self.peek() == '-' and self.s[self.i + 1:self.i + 2] not in (']', ''):
                self.i += 1
                if self.eat('\\'): b = self.esc()[1]
                else: b = [(ord(self.peek()),) * 2]; self.i += 1
                if len(a) != 1 or len(b) != 1: raise Bad('range')
                a = [(a[0][0], b[0][1])]
            out += a
        out = iv_union(out)
        return iv_sub(ALL, out) if neg else out

_rx = {}
def compile_(pattern):
    if pattern not in _rx:
        try:
            p = Parser(pattern); a = p.alt()
            if p.i != len(pattern): raise Bad('rest')
            _rx[pattern] = (a, p.n, p.names)
        except (Bad, ValueError, IndexError) as e: _rx[pattern] = None
    return _rx[pattern]

def run(P, n, t, i, g, k):
    """match node n at position i, then continue with k(position, groups): the first way that succeeds"""
    o = n[0]
    if o == 'set':
        return k(i + 1, g) if i < len(t) and P.cin(t[i], n[1]) else None
    if o == 'seq':
        def step(j, i, g):
            if j == len(n[1]): return k(i, g)
            return run(P, n[1][j], t, i, g, lambda i2, g2: step(j + 1, i2, g2))
        return step(0, i, g)
    if o == 'alt':
        for x in n[1]:
            r = run(P, x, t, i, g, k)
            if r is not None: return r
        return None
    if o == 'group':
        return run(P, n[2], t, i, g, lambda j, g2: k(j, dict(g2, **{str(n[1]): (i, j)})))
    if o == 'rep':
        _, x, lo, hi, greedy = n
        def more(c, i, g):
            def again(): return run(P, x, t, i, g, lambda j, g2: more(c + 1, j, g2) if j > i or c < lo else None) if hi is None or c < hi else None
            if c < lo: return again()
            if greedy:
                r = again()
                return r if r is not None else k(i, g)
            r = k(i, g)
            return r if r is not None else again()
        return more(0, i, g)
    if o == 'bol': return k(i, g) if i == 0 else None
    if o == 'eol': return k(i, g) if i == len(t) else None
    raise EngineError('regex node')

def regex(P, v):
    v = P.un(v)
    if v.__class__ is Adt and short(v.p) == 'Regex' and v.f[0].__class__ is str: return compile_(v.f[0])
    raise EngineError('regular expression %s' % v.__class__.__name__)
def text(P, s):
    out = []; rest = P.chars(s)
    while True:
        f, c, rest = P.first(rest)
        if not f: return tuple(out)
        out.append(c)
def find(P, rx, t, i):
    for s in range(i, len(t) + 1):
        r = run(P, rx[0], t, s, {}, lambda j, g: dict(g, **{'0': (s, j)}))
        if r is not None: return r
    return None
def find_all(P, rx, t):
    out = []; i = 0; last = None
    while i <= len(t):
        r = find(P, rx, t, i)
        if r is None: break
        a, b = r['0']
        if a == b and a == last: i = b + 1; continue      # an empty match directly after a match is not reported
        out.append(r); last = b
        i = b if b > a else b + 1
    return out
def piece(t, a, b): return cat((Run(tuple(t[a:b])),)) if b > a else ''
def match(t, ab): return Adt('regex::Match', 0, (Seq(tuple(t)), ab[0], ab[1]))
def captures(rx, t, r): return Adt('regex::Captures', 0, (Seq(tuple(t)), tuple(sorted(r.items())), tuple(sorted(rx[2].items())), rx[1]))
def offset(P, t, i): return sum(P.fix_width(c) for c in t[:i])

@m('Regex.new')
def _(P, a, d, dt, at):
    s = S(P, a[0])
    if s.__class__ is not str or compile_(s) is None:
        P.imp('regular expression'); return P.fresh_t(dt, 'Regex::new') if dt is not None else Opq(P, 'Regex')
    return ok(Adt('regex::Regex', 0, (s,)))
@m('Regex.as_str')
def _(P, a, d, dt, at): return P.un(a[0]).f[0]
@m('Regex.is_match')
def _(P, a, d, dt, at): return find(P, regex(P, a[0]), text(P, S(P, a[1])), 0) is not None
@m('Regex.find')
def _(P, a, d, dt, at):
    t = text(P, S(P, a[1])); r = find(P, regex(P, a[0]), t, 0)
    return NONE if r is None else some(match(t, r['0']))
@m('Regex.captures')
def _(P, a, d, dt, at):
    rx = regex(P, a[0]); t = text(P, S(P, a[1])); r = find(P, rx, t, 0)
    return NONE if r is None else some(captures(rx, t, r))
@m('Regex.find_iter')
def _(P, a, d, dt, at):
    rx = regex(P, a[0]); t = text(P, S(P, a[1]))
    return It('items', tuple(match(t, r['0']) for r in find_all(P, rx, t)))
@m('Regex.captures_iter')
def _(P, a, d, dt, at):
    rx = regex(P, a[0]); t = text(P, S(P, a[1]))
    return It('items', tuple(captures(rx, t, r) for r in find_all(P, rx, t)))
@m('Regex.split')
def _(P, a, d, dt, at):
    rx = regex(P, a[0]); t = text(P, S(P, a[1])); out = []; last = 0
    for r in find_all(P, rx, t): out.append(piece(t, last, r['0'][0])); last = r['0'][1]
    return It('items', tuple(out) + (piece(t, last, len(t)),))
@m('Regex.replace_all', 'Regex.replace')
def _(P, a, d, dt, at):
    rx = regex(P, a[0]); t = text(P, S(P, a[1])); out = []; last = 0
    rep = P.un(a[2])
    for r in find_all(P, rx, t)[:None if d['n'] == 'replace_all' else 1]:
        out.append(piece(t, last, r['0'][0])); last = r['0'][1]
        if rep.__class__ in (Clo, FnV): out.append(S(P, P.callv(a[2], [Ref(Cell(captures(rx, t, r)))])))
        elif rep.__class__ is Adt and short(rep.p) == 'NoExpand': out.append(S(P, rep.f[0]))
        else:
            s = S(P, rep)
            if s.__class__ is not str or '$' in s: P.imp('replacement text'); s = SSym(P, 'replacement')
            out.append(s)
    return cat(tuple(x for x in out + [piece(t, last, len(t))] if x != ''))
def group(P, c, k):
    c = P.un(c); t, g, names, n = c.f
    k = P.un(k)
    if k.__class__ is str:
        if k not in dict(names): return None
        k = dict(names)[k]
    if k.__class__ is not int: raise EngineError('capture group')
    g = dict(g).get(str(k))
    return None if g is None else match(t.i, g)
@m('Captures.name', 'Captures.get')
def _(P, a, d, dt, at):
    r = group(P, a[0], a[1])
    return NONE if r is None else some(r)
@m('Captures.len')
def _(P, a, d, dt, at): return P.un(a[0]).f[3] + 1
@m('Captures.iter')
def _(P, a, d, dt, at):
    n = P.un(a[0]).f[3]
    return It('items', tuple(NONE if r is None else some(r) for r in (group(P, a[0], k) for k in range(n + 1))))
def mt(P, v):
    v = P.un(v); return v.f[0].i, v.f[1], v.f[2]
@m('Match.start')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return offset(P, t, i)
@m('Match.end')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return offset(P, t, j)
@m('Match.len')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return offset(P, t[i:j], j - i)
@m('Match.is_empty')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return i == j
@m('Match.range')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return Adt('std::ops::Range', 0, (offset(P, t, i), offset(P, t, j)))
@m('Match.as_str')
def _(P, a, d, dt, at): t, i, j = mt(P, a[0]); return piece(t, i, j)

# ------------------------------------------------------------------ numbers in texts
def number(P, s, radix, dt):
    """value of a text as an unsigned number of the type of dt; None: not finite enough to decide"""
    t = ty_of(P, dt)
    tt = P.prog.T[t['a'][0]] if t and t.get('p') == RESULT else None
    if not tt or tt['k'] != 'uint': return None
    if s.__class__ is SSym and s.gap is None: return None
    from interp import RANGES
    hi = RANGES[tt['n']][1]
    bad = err(Opq(P, 'ParseIntError'))
    cs = text(P, s)
    if cs and P.ceq(cs[0], 0x2B): cs = cs[1:]
    if not cs: return bad
    v = 0
    for c in cs:
        if c.__class__ is CSym:
            for x in '0123456789abcdefABCDEF'[:10 if radix == 10 else None]:
                if P.cin(c, [(ord(x), ord(x))]): c = ord(x); break
            else: return bad
        x = {**{ord(y): k for k, y in enumerate('0123456789abcdef')}, **{ord(y): 10 + k for k, y in enumerate('ABCDEF')}}.get(c)
        if x is None or x >= radix: return bad
        v = v * radix + x
        if v > hi: return bad
    return ok(v)
_parse, _radix = M['str.parse'], M['int.from_str_radix']
@m('str.parse', 'FromStr.from_str')
def _(P, a, d, dt, at):
    t = ty_of(P, dt)
    if t and t.get('p') == RESULT and P.prog.T[t['a'][0]]['k'] == 'uint':
        r = number(P, S(P, a[0]), 10, dt)
        if r is not None: return r
    return _parse(P, a, d, dt, at)
@m('int.from_str_radix')
def _(P, a, d, dt, at):
    r = P.un(a[1])
    if r.__class__ is int and r in (10, 16):
        r = number(P, S(P, a[0]), r, dt)
        if r is not None: return r
    return _radix(P, a, d, dt, at)

_index = M['Index.index']
@m('Index.index')
def _(P, a, d, dt, at):
    v = P.un(a[0])
    if v.__class__ is Adt and short(v.p) == 'Captures':
        r = group(P, v, a[1])
        if r is None: P.panic('no such capture group', 'index')
        return piece(r.f[0].i, r.f[1], r.f[2])
    return _index(P, a, d, dt, at)

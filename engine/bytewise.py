"""Finite-table domain: an interpreter for code on bytes and characters whose inputs are a few variables, each over a
finite set of values.  A value is a constant or a table giving it for every combination of the variables (the world);
branches on tables split the set of combinations still possible.  Texts and arrays have constant length and may
contain tables.  The result is exact for all combinations at once."""
import itertools, re
from terms import *
from prog import bare, split_targs, INTS, AnalysisBroken
from absint import Interp, CxxThrow, CxxContinue, CxxBreak, PathEnd
import models
from models import head, STRS, class_head, is_copy, NPOS

WORLD = (('world',), ())
DRAWS = (('draws',), ())
LIMIT = 1 << 17


def is_ch(p):
    return bool(p[1]) and isinstance(p[1][-1], tuple) and p[1][-1][0] == 'ch'


def ix(p):
    """position of a place within an array or text"""
    if not p[1]:
        return None
    x = p[1][-1]
    if isinstance(x, tuple) and x[0] == 'ch':
        return x[1]
    if isinstance(x, str) and re.match(r'#\d+$', x):
        return int(x[1:])
    return None


def wrap(x, t):
    b, s = INTS.get(bare(t), (64, True))
    if bare(t) == 'bool':
        return int(bool(x))
    x &= (1 << b) - 1
    return x - (1 << b) if s and x >> (b - 1) else x


class Bytewise(Interp):
    def reset(self):
        super().reset()
        self.mem[WORLD] = ('world', 1, 1)
        self.mem[DRAWS] = ('draws', ())

    # ---------------------------------------------------------------- worlds and tables
    def world(self):
        w = self.mem[WORLD]
        return w[1], w[2]

    def var(self, values):
        """a new variable over the given integers"""
        n, live = self.world()
        k = len(values)
        if n * k > LIMIT:
            raise AnalysisBroken('too many combinations of values')
        m = 0
        for j in range(k):
            m |= live << (n * j)
        self.mem[WORLD] = ('world', n * k, m)
        return ('tab', tuple(v for v in values for _ in range(n)))

    def vals(self, v):
        n, _ = self.world()
        if v[0] == 'not':
            return [1 - (x != 0) for x in self.vals(v[1])]
        if v[0] == 'c':
            return [v[1]] * n
        t = v[1]
        return list(t) * (n // len(t)) if len(t) < n else t

    def fin(self, v):
        while v[0] == 'not':
            v = v[1]
        return v[0] == 'tab' or v[0] == 'c' and isinstance(v[1], int)

    def tabbed(self, *vs):
        return all(self.fin(v) for v in vs) and any(v[0] in ('tab', 'not') and not is_c(v) for v in vs)

    CACHE = {}

    def pw(self, f, *vs, key=None):
        if all(v[0] == 'c' for v in vs):
            return C(f(*[int(v[1]) for v in vs]))
        if key is not None:
            key = (key, vs, self.mem[WORLD][1])
            r = self.CACHE.get(key)
            if r is not None:
                return r
        memo = {}
        r = []
        for xs in zip(*[self.vals(v) for v in vs]):
            y = memo.get(xs)
            if y is None:
                y = memo[xs] = int(f(*xs))
            r.append(y)
        r = C(r[0]) if len(set(memo.values())) == 1 else ('tab', tuple(r))
        if key is not None:
            if len(self.CACHE) > 20000:
                self.CACHE.clear()
            self.CACHE[key] = r
        return r

    def mask(self, v):
        r = self.CACHE.get(('mask', v, self.mem[WORLD][1]))
        if r is None:
            r = int(''.join('1' if x else '0' for x in reversed(list(self.vals(v)))), 2)
            self.CACHE[('mask', v, self.mem[WORLD][1])] = r
        return r

    def possible(self, v):
        """the values v can still have"""
        if is_c(v):
            return {int(v[1])}
        n, live = self.world()
        if live == (1 << n) - 1:
            return set(self.vals(v))
        return set(itertools.compress(self.vals(v), map(int, reversed(bin(live)[2:].zfill(n)))))

    def decide(self, t):
        if self.tabbed(t):
            m, live = self.mask(t), self.mem[WORLD][2]
            return True if not live & ~m else False if not live & m else None
        return super().decide(t)

    def branch(self, t):
        if self.tabbed(t):
            d = self.decide(t)
            if d is None:
                n, live = self.world()
                m = self.mask(t)
                d = self.choose(2) == 0
                self.mem[WORLD] = ('world', n, live & m if d else live & ~m)
            return d
        return super().branch(t)

    def boolterm(self, v, t=''):
        if v[0] == 'tab':
            return self.pw(lambda x: x != 0, v, key='bool')
        return super().boolterm(v, t)

    def split(self, v):
        """the one value of v on this path"""
        while True:
            s = self.possible(v)
            if len(s) == 1:
                return s.pop()
            x = min(s)
            if self.branch(self.pw(lambda y: y == x, v)):
                return x

    def case_hit(self, v, vals):
        if self.fin(v):
            vals = set(vals)
            return self.truth(self.pw(lambda x: x in vals, v), 'bool')
        return super().case_hit(v, vals)

    # ---------------------------------------------------------------- arithmetic
    OPS = {'+': lambda x, y: x + y, '-': lambda x, y: x - y, '*': lambda x, y: x * y, '&': lambda x, y: x & y, '|': lambda x, y: x | y, '^': lambda x, y: x ^ y,
           '<<': lambda x, y: x << y if 0 <= y < 128 else 0, '>>': lambda x, y: x >> y if 0 <= y < 128 else 0,
           '/': lambda x, y: 0 if not y else (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1),
           '%': lambda x, y: 0 if not y else (abs(x) % abs(y)) * (1 if x >= 0 else -1)}
    CMP = {'<': lambda x, y: x < y, '>': lambda x, y: x > y, '<=': lambda x, y: x <= y, '>=': lambda x, y: x >= y, '==': lambda x, y: x == y, '!=': lambda x, y: x != y}

    def binop(self, op, a, b, t, at='', bt=''):
        if self.tabbed(a, b):
            if op in self.CMP:
                return self.pw(self.CMP[op], a, b, key=op)
            if op == '<=>':
                return self.pw(lambda x, y: (x > y) - (x < y), a, b)
            if op in self.OPS:
                if op in '/%' and 0 in self.possible(b):
                    self.ev_add('div', divisor=ZERO, t=t)
                f = self.OPS[op]
                return self.pw(lambda x, y: wrap(f(x, y), t), a, b, key=(op, bare(t)))
        if a[0] == 'ptr' and b[0] == 'ptr':
            i, j = self.pos(a[1]), self.pos(b[1])
            if i is not None and j is not None and i[0] == j[0]:
                if op == '-':
                    return C(i[1] - j[1])
                if op in self.CMP:
                    return C(self.CMP[op](i[1], j[1]))
        if op in ('+', '-', '*', '<<') and is_c(a) and is_c(b) and bare(t) in INTS:
            return C(wrap(self.OPS[op](int(a[1]), int(b[1])), t))
        return super().binop(op, a, b, t, at, bt)

    def int_cast(self, v, t, ft):
        if v[0] == 'tab' and t in INTS:
            return self.pw(lambda x: wrap(x, t), v, key=('cast', t))
        return super().int_cast(v, t, ft)

    def ex_Un(self, n):
        op = n['op']
        if op in ('++', '--'):
            p = self.lv(n['e'])
            t = n['e'].get('t', '')
            old = self.load(p, t)
            if old[0] == 'tab' or old[0] == 'ptr' or is_c(old):
                new = self.ptr_add(old, C(1 if op == '++' else -1)) if old[0] == 'ptr' else self.pw(lambda x: wrap(x + (1 if op == '++' else -1), t), old)
                self.store(p, new, t)
                return old if n.get('post') else ('L', p) if n.get('lv') else new
            new = add(old, ONE if op == '++' else C(-1)) if not nonnum(old) else ('u', op, old)
            self.store(p, new, t)
            return old if n.get('post') else ('L', p) if n.get('lv') else new
        if op in ('-', '~'):
            v = self.rv(self.ev(n['e']), n['e'].get('t', ''))
            if v[0] == 'tab':
                return self.pw((lambda x: wrap(-x, n['t'])) if op == '-' else (lambda x: wrap(~x, n['t'])), v)
            if op == '-':
                return neg(v)
            if is_c(v):
                return C(wrap(~int(v[1]), n['t']))
            return ('u', '~', v)
        return super().ex_Un(n)

    # ---------------------------------------------------------------- memory
    def pos(self, p):
        """(array, index) of a place within an array or text, also of the array itself"""
        if p[1] and isinstance(p[1][-1], str) and p[1][-1].startswith('as:'):
            return self.pos((p[0], p[1][:-1]))
        i = ix(p)
        if i is not None:
            return (p[0], p[1][:-1]), i
        if bare(self.ctypes.get(p, '')).endswith(']') or split_targs(bare(self.ctypes.get(p, '')))[0] == 'std::array':
            return p, 0
        return None

    def ptr_add(self, p, off):
        if p[0] == 'ptr' and self.fin(off):
            k = self.split(off)
            pl = p[1]
            size = 1
            tag = ()
            if pl[1] and isinstance(pl[1][-1], str) and pl[1][-1].startswith('as:'):
                tag = pl[1][-1:]
                pl = (pl[0], pl[1][:-1])
                size = max(1, INTS.get(bare(tag[0][3:].rstrip(' *')), (8, False))[0] // 8)
            r = self.pos(pl)
            if r is not None:
                el = ('ch', r[1] + k * size) if is_ch(pl) else '#%d' % (r[1] + k * size)
                if not k:
                    return p
                return ('ptr', (r[0][0], r[0][1] + (el,) + tag))
        return super().ptr_add(p, off)

    def length(self, p):
        """number of elements of the array at place p, if known"""
        t = bare(self.ctypes.get(p, ''))
        m = re.search(r'\[(\d+)\]$', t)
        if m:
            return int(m.group(1))
        h, a = split_targs(t)
        if h == 'std::array' and len(a) == 2 and a[1].rstrip('UL').isdigit():
            return int(a[1].rstrip('UL'))
        return None

    def bounds(self, p):
        r = self.pos(p)
        if r is None or is_ch(p):
            return
        n = self.length(r[0])
        if n is not None and not 0 <= r[1] < n:
            self.ev_add('oob', what='element %d of %d' % (r[1], n))

    def as_split(self, p):
        """element places behind a reinterpreted pointer"""
        if p[1] and isinstance(p[1][-1], str) and p[1][-1].startswith('as:'):
            t = bare(p[1][-1][3:]).rstrip(' *')
            r = self.pos((p[0], p[1][:-1]))
            if r is None or t not in INTS:
                return None
            a, i = r
            return [(a[0], a[1] + ('#%d' % (i + k),)) for k in range(INTS[t][0] // 8)], t
        return None

    def load(self, place, t, quiet=False):
        if is_ch(place):
            par = (place[0], place[1][:-1])
            cs = chars(self.mem.get(par))
            i = place[1][-1][1]
            if cs is not None:
                if 0 <= i < len(cs):
                    return cs[i]
                if i == len(cs) and 'string_view' not in self.ctypes.get(par, ''):
                    return ZERO
                self.ev_add('oob', what='character %d of %d' % (i, len(cs)))
            return ('s', 'char' + show_place(place)[:60])
        s = self.as_split(place)
        if s is not None:
            r = ZERO
            for k, q in enumerate(s[0]):
                v = self.load(q, 'unsigned char')
                if not self.fin(v):
                    return ('s', 'bytes of ' + show_place(place))
                r = self.pw(lambda x, y: x | (y & 255) << 8 * k, r, v)
            return self.pw(lambda x: wrap(x, s[1]), r)
        if not self.is_struct(bare(t)):
            self.bounds(place)
        return super().load(place, t, quiet)

    def store(self, place, val, t, quiet=False):
        if is_ch(place):
            par = (place[0], place[1][:-1])
            cs = chars(self.mem.get(par))
            i = place[1][-1][1]
            if cs is None or not 0 <= i < len(cs):
                self.ev_add('oob', what='character %d of %s' % (i, len(cs) if cs is not None else '?'))
                return
            self.mem[par] = text(list(cs[:i]) + [val] + list(cs[i + 1:]))
            return
        s = self.as_split(place)
        if s is not None:
            for k, q in enumerate(s[0]):
                self.store(q, self.pw(lambda x: x >> 8 * k & 255, val) if self.fin(val) else ('s', 'byte%d(%s)' % (k, show(val)[:80])), 'unsigned char')
            return
        if not self.is_struct(bare(t)):
            self.bounds(place)
        return super().store(place, val, t, quiet)

    def ex_Index(self, n):
        o = self.ev(n['o'])
        i = self.rv(self.ev(n['i']), n['i'].get('t', ''))
        at = n.get('at', '')
        if at.rstrip().endswith('*'):
            v = self.rv(o, at)
        else:
            p = self.as_place(o, at)
            v = self.mem.get(p)
            if v is None or v[0] not in ('str', 'initlist'):
                self.ctypes.setdefault(p, bare(at))
                v = ('ptr', p)
        if self.fin(i):
            cs = chars(v) if v[0] in ('str', 'txt') else None
            if cs is not None:
                return self.lookup(list(cs) + [ZERO], i)
            if v[0] == 'initlist':
                return self.lookup(list(v[1]), i)
            if v[0] == 'ptr':
                r = self.pos(v[1])
                if r is not None:
                    if not is_c(i):
                        q = self.gather(v[1], i)
                        if q is not None:
                            return q
                    k = self.split(i)
                    el = ('ch', r[1] + k) if is_ch(v[1]) else '#%d' % (r[1] + k)
                    q = (r[0][0], r[0][1] + (el,))
                    self.ctypes.setdefault(q, bare(n['t']))
                    return ('L', q)
        if v[0] == 'ptr':
            return ('L', (v[1][0], v[1][1] + (('ix', i),)))
        return super().ex_Index(n)

    def lookup(self, xs, i):
        ks = self.possible(i)
        if any(not 0 <= k < len(xs) for k in ks):
            self.ev_add('oob', what='element %s of %d' % ([k for k in ks if not 0 <= k < len(xs)][:3], len(xs)))
        if is_c(i):
            return xs[i[1]] if 0 <= i[1] < len(xs) else ('s', 'outside')
        if all(is_c(x) for x in xs):
            return self.pw(lambda k: int(xs[k][1]) if 0 <= k < len(xs) else 0, i)
        return xs[self.split(i)]

    def gather(self, p, i):
        """element i (a table) of the array p"""
        r = self.pos(p)
        ks = sorted(self.possible(i))
        els = {}
        for k in ks:
            q = (r[0][0], r[0][1] + ((('ch', r[1] + k) if is_ch(p) else '#%d' % (r[1] + k)),))
            v = self.load(q, 'unsigned char' if not is_ch(p) else 'char')
            if not self.fin(v):
                return None
            els[k] = self.vals(v)
        n, _ = self.world()
        iv = self.vals(i)
        r = tuple(els[iv[j]][j] if iv[j] in els else 0 for j in range(n))
        return C(r[0]) if all(x == r[0] for x in r) else ('tab', r)

    def declare(self, v):
        if v.get('static'):
            super().declare(v)
            root = self.frames[-1].env[(self.frames[-1].tu, v['d'])]
            if root not in self.mem and ('static', root) not in self.mem and v.get('init') is not None:
                self.mem[('static', root), ()] = ONE if False else ('c', 1)
                if not any(p[0] == root[0] for p in self.mem if p != (('static', root), ())):
                    self.init_place(root, v['t'], v['init'])
            return
        super().declare(v)

    # ---------------------------------------------------------------- iteration over texts
    def st_RangeFor(self, n):
        def body():
            if n.get('init'):
                self.exec(n['init'])
            rng = self.ev(n['range'])
            rt = bare(n['rt'])
            if head(rt) in STRS:
                p = self.as_place(rng, rt)
                cs = chars(self.mem.get(p))
                if cs is not None:
                    for k in range(len(cs)):
                        try:
                            self.bind_loopvar(n['var'], ('L', (p[0], p[1] + (('ch', k),))))
                            self.exec(n['body'])
                        except CxxContinue:
                            continue
                        except CxxBreak:
                            break
                    return
            self.pending = rng
            n2 = dict(n)
            n2['init'] = None
            n2['range'] = dict(k='Known', v=rng, t=n['rt'])
            super(Bytewise, self).st_RangeFor(n2)
        self.scope(body)

    def loop(self, n, cond, body, inc, pre_havoc=None, meta=None):
        if n['k'] == 'RangeForSym':
            return super().loop(n, cond, body, inc, pre_havoc, meta)
        lid = (self.frames[-1].fn['sq'], n.get('l', 0))
        for k in range(self.unroll):
            self.loopstack.append((lid, 'u%d' % k))
            try:
                r = self._iter(cond, body, inc)
            finally:
                self.loopstack.pop()
            if r in ('exit', 'break'):
                return
        self.ev_add('endless', loop=lid)
        raise PathEnd('endless')

    def ex_Known(self, n):
        return n['v']


# -------------------------------------------------------------------- texts
def chars(v):
    """the characters of a text value"""
    if v is None:
        return None
    if v[0] == 'str':
        return tuple(C(wrap(b, 'char')) for b in v[1].encode('utf-8', 'surrogateescape'))
    if v[0] == 'txt':
        return v[1]
    if v == models.EMPTY:
        return ()
    return None


def text(cs):
    if all(is_c(c) and 0 <= c[1] < 128 for c in cs):
        return ('str', ''.join(chr(c[1]) for c in cs))
    return ('txt', tuple(cs))


def text_of(I, a, t=''):
    """characters of an argument that is a text or a pointer to one"""
    v = a
    if a[0] == 'L' and bare(I.ctypes.get(a[1], '')).endswith(']') and chars(I.mem.get(a[1])) is None:
        v = ('ptr', a[1])
    elif a[0] == 'L':
        v = I.load(a[1], t or I.ctypes.get(a[1], ''), quiet=True)
    if v[0] == 'ptr':
        p = v[1]
        if is_ch(p):
            cs = chars(I.mem.get((p[0], p[1][:-1])))
            if cs is None:
                return None
            cs = cs[p[1][-1][1]:]
        else:
            cs = chars(I.mem.get(p))
            if cs is None:
                r = I.pos(p)
                if r is None:
                    return None
                cs = []
                n = I.length(r[0]) or 0
                for k in range(r[1], n):
                    c = I.load((r[0][0], r[0][1] + ('#%d' % k,)), 'char', quiet=True)
                    if not I.fin(c):
                        return None
                    cs.append(c)
        out = []
        for c in cs:
            if I.branch(I.pw(lambda x: x == 0, c)):
                break
            out.append(c)
        return out
    cs = chars(v)
    return None if cs is None else list(cs)


def span(I, a, b):
    """elements between two pointers"""
    a, b = I.rv(a), I.rv(b)
    if a[0] != 'ptr' or b[0] != 'ptr':
        return None
    i, j = I.pos(a[1]), I.pos(b[1])
    if i is None or j is None or i[0] != j[0]:
        return None
    out = []
    for k in range(i[1], j[1]):
        p = (i[0][0], i[0][1] + ((('ch', k) if is_ch(a[1]) else '#%d' % k),))
        I.ctypes.setdefault(p, 'char' if is_ch(a[1]) else I.elem_type(I.ctypes.get(i[0], '')) or 'unsigned char')
        out.append(p)
    return out


def at(p, k):
    return ('ptr', (p[0], p[1] + (('ch', k),)))


def throw(t):
    raise CxxThrow('std::' + t, ('s', 'exc:' + t))


def owner(I, this, ct):
    """a place that stays when a view is gone"""
    if head(ct) != 'std::basic_string_view':
        return this
    v = I.mem.get(this)
    p = (('view', v), ())
    I.mem[p] = v
    I.ctypes[p] = bare(ct)
    return p


def eqtext(I, a, b):
    if len(a) != len(b):
        return ZERO
    r = ONE
    for x, y in zip(a, b):
        if not I.fin(x) or not I.fin(y):
            return ('u', 'streq', ('txt', tuple(a)), ('txt', tuple(b))) if x != y else r
        r = I.pw(lambda p, q, s: int(bool(s) and p == q), x, y, r, key='eqtext')
        if r == ZERO:
            return r
    return r


def cmpseq(I, a, b, unsigned=True):
    """three-way lexicographical comparison"""
    f = (lambda x: x & 255) if unsigned else (lambda x: x)
    r = C((len(a) > len(b)) - (len(a) < len(b)))
    for x, y in reversed(list(zip(a, b))):
        if not I.fin(x) or not I.fin(y):
            return None
        r = I.pw(lambda p, q, s: (f(p) > f(q)) - (f(p) < f(q)) or s, x, y, r, key=('cmp', unsigned))
    return r


def num(I, v):
    v = I.rv(v, '') if v[0] == 'L' else v
    if v == NPOS:
        return 1 << 60
    return I.split(v) if I.fin(v) else None


def make_text(I, args, ps):
    """value of basic_string(args...) / assign(args...) / append(args...)"""
    xs = [(a, p) for a, p in zip(args, ps) if head(p) != 'std::allocator']
    if not xs:
        return []
    v = I.rv(xs[0][0])
    if v[0] == 'initlist':
        return [I.rv(x) for x in v[1]]
    if len(xs) == 1:
        return text_of(I, xs[0][0])
    if len(xs) == 2 and bare(xs[0][1]) in INTS:
        return [I.rv(xs[1][0])] * num(I, xs[0][0])
    if len(xs) == 2:
        w = I.rv(xs[1][0])
        if v[0] == 'ptr' and w[0] == 'ptr':
            s = span(I, v, w)
            return None if s is None else [I.load(p, 'char') for p in s]
        if v[0] == 'ptr':
            s = I.pos(v[1])
            if s is None and chars(I.mem.get(v[1])) is not None:
                return list(chars(I.mem[v[1]]))[:num(I, w)]
            s = span(I, v, I.ptr_add(v, w)) if s is not None else None
            return None if s is None else [I.load(p, 'char') for p in s]
        cs = text_of(I, xs[0][0])
        k = num(I, w)
        if cs is None or k is None:
            return None
        return cs[:k] if v[0] == 'str' and '*' in xs[0][1] else cs[k:]
    if len(xs) == 3:
        cs = text_of(I, xs[0][0])
        i, k = num(I, xs[1][0]), num(I, xs[2][0])
        if cs is None or i is None or k is None:
            return None
        if i > len(cs):
            throw('out_of_range')
        return cs[i:i + k]
    return None


def pieces(I, a):
    """characters searched for: a character or a text"""
    v = I.rv(a)
    if I.fin(v):
        return [v]
    return text_of(I, v)


def str_hook(I, ref, this, args, n, h):
    ct = ref.get('cls', '') if ref.get('k') == 'ctor' else I.ctypes.get(this) or ref.get('cls', '')
    ps = ref.get('params') or []
    if ref.get('k') == 'ctor':
        I.ctypes[this] = bare(ref.get('cls', ''))
        if is_copy(ref):
            cs = text_of(I, args[0], ps[0])
        else:
            cs = make_text(I, args, ps)
        if cs is None:
            return NotImplemented
        I.store(this, text(cs), bare(ref.get('cls', '')), quiet=True)
        return ('void',)
    cs = text_of(I, ('L', this), ct)
    if cs is None:
        return NotImplemented
    put = lambda xs: I.store(this, text(xs), ct)
    if n in ('size', 'length'):
        return C(len(cs))
    if n == 'empty':
        return C(not cs)
    if n == 'capacity' or n == 'max_size':
        return C(1 << 62)
    if n in ('reserve', 'shrink_to_fit'):
        return ('void',)
    if n in ('c_str', 'data'):
        return at(owner(I, this, ct), 0)
    if n in ('begin', 'cbegin', 'end', 'cend'):
        return at(owner(I, this, ct), 0 if 'b' in n else len(cs))
    if n in ('operator[]', 'at', 'front', 'back'):
        i = ZERO if n == 'front' else C(len(cs) - 1) if n == 'back' else I.rv(args[0], 'unsigned long')
        if n in ('front', 'back') and not cs:
            I.ev_add('oob', what=n + '() of an empty text')
            return ('L', I.tmp_of(('s', 'outside'), 'char'))
        if n == 'at' and I.fin(i):
            if I.branch(I.pw(lambda k: not 0 <= k < len(cs), i)):
                throw('out_of_range')
        if not I.fin(i):
            return NotImplemented
        if not is_c(i):
            return ('L', I.tmp_of(I.lookup(cs + [ZERO], i), 'char'))
        p = owner(I, this, ct)
        q = (p[0], p[1] + (('ch', i[1]),))
        I.ctypes[q] = 'char'
        return ('L', q)
    if n == 'operator basic_string_view' or n.startswith('operator ') and 'view' in n or ref.get('conv'):
        return text(cs)
    if n in ('operator=', 'assign'):
        xs = [I.rv(args[0])] if len(args) == 1 and I.fin(I.rv(args[0])) else make_text(I, args, ps)
        if xs is None:
            return NotImplemented
        put(xs)
        return ('L', this)
    if n in ('operator+=', 'append', 'push_back'):
        xs = [I.rv(args[0])] if len(args) == 1 and I.fin(I.rv(args[0])) else make_text(I, args, ps)
        if xs is None:
            return NotImplemented
        put(cs + xs)
        return ('L', this) if n != 'push_back' else ('void',)
    if n == 'pop_back':
        if not cs:
            I.ev_add('oob', what='pop_back() of an empty text')
        put(cs[:-1])
        return ('void',)
    if n == 'clear':
        put([])
        return ('void',)
    if n == 'resize':
        k = num(I, args[0])
        if k is None or k > 100000:
            return NotImplemented
        put(cs[:k] + [I.rv(args[1]) if len(args) > 1 else ZERO] * (k - len(cs)))
        return ('void',)
    if n in ('remove_prefix', 'remove_suffix'):
        k = num(I, args[0])
        if k is None:
            return NotImplemented
        if k > len(cs):
            I.ev_add('oob', what='%s(%d) of %d characters' % (n, k, len(cs)))
        put(cs[k:] if n == 'remove_prefix' else cs[:len(cs) - k])
        return ('void',)
    if n == 'substr':
        i = num(I, args[0]) if args else 0
        k = num(I, args[1]) if len(args) > 1 else 1 << 60
        if i is None or k is None:
            return NotImplemented
        if i > len(cs):
            throw('out_of_range')
        return text(cs[i:i + k])
    if n in ('starts_with', 'ends_with'):
        xs = pieces(I, args[0])
        if xs is None:
            return NotImplemented
        if len(xs) > len(cs):
            return ZERO
        return eqtext(I, cs[:len(xs)] if n == 'starts_with' else cs[len(cs) - len(xs):], xs)
    if n in ('find', 'rfind', 'contains', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        xs = pieces(I, args[0])
        if xs is None or len(args) > 2:
            return NotImplemented
        back = n in ('rfind', 'find_last_of', 'find_last_not_of')
        o = num(I, args[1]) if len(args) > 1 else (1 << 60 if back else 0)
        whole = n in ('find', 'rfind', 'contains')
        r = range(len(cs) - (len(xs) if whole else 1), -1, -1) if back else range(len(cs) - (len(xs) if whole else 1) + 1)
        hits = []
        for k in r:
            if (k > o) if back else (k < o):
                continue
            if whole:
                hit = eqtext(I, cs[k:k + len(xs)], xs)
            else:
                hit = ZERO
                for x in xs:
                    hit = I.pw(lambda a, b, c: a == b or c, cs[k], x, hit)
                if 'not' in n:
                    hit = I.pw(lambda a: not a, hit)
            hits.append((k, hit))
        if is_c(NPOS) and all(I.fin(h) for _, h in hits):
            r = ZERO if n == 'contains' else NPOS
            for k, h in reversed(hits):
                r = I.pw(lambda x, y: (1 if n == 'contains' else k) if x else y, h, r)
            return r
        for k, hit in hits:
            if I.branch(hit):
                return C(1) if n == 'contains' else C(k)
        return ZERO if n == 'contains' else NPOS
    if n == 'erase':
        vs = [I.rv(a) for a in args]
        if vs and vs[0][0] == 'ptr':
            i = I.pos(vs[0][1])[1]
            j = I.pos(vs[1][1])[1] if len(vs) > 1 else i + 1
            put(cs[:i] + cs[j:])
            return at(this, i)
        i = num(I, args[0]) if args else 0
        k = num(I, args[1]) if len(args) > 1 else 1 << 60
        if i > len(cs):
            throw('out_of_range')
        put(cs[:i] + cs[i + k:])
        return ('L', this)
    if n in ('insert', 'replace'):
        v = I.rv(args[0])
        if v[0] == 'ptr' and n == 'insert' and len(args) == 2:
            i = I.pos(v[1])[1]
            put(cs[:i] + [I.rv(args[1])] + cs[i:])
            return at(this, i)
        if not I.fin(v):
            return NotImplemented
        i = I.split(v)
        rest = args[1:]
        k = 0
        if n == 'replace':
            k, rest = num(I, args[1]), args[2:]
        xs = make_text(I, rest, ps[len(ps) - len(rest):])
        if xs is None:
            return NotImplemented
        if i > len(cs):
            throw('out_of_range')
        put(cs[:i] + xs + cs[i + k:])
        return ('L', this)
    if n == 'compare' and len(args) == 1:
        xs = text_of(I, args[0])
        r = cmpseq(I, cs, xs) if xs is not None else None
        return NotImplemented if r is None else r
    if n == 'copy':
        return NotImplemented
    return NotImplemented


def arr_hook(I, ref, this, args, n):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    k = I.length(this) if I.length(this) is not None else None
    if k is None:
        I.ctypes[this] = bare(ref.get('cls', ''))
        k = I.length(this)
    if k is None:
        return NotImplemented
    el = lambda i: (this[0], this[1] + ('#%d' % i,))
    et = I.elem_type(ct)
    if n in ('size', 'max_size'):
        return C(k)
    if n == 'empty':
        return C(k == 0)
    if n in ('data', 'begin', 'cbegin'):
        return ('ptr', el(0))
    if n in ('end', 'cend'):
        return ('ptr', el(k))
    if n == 'fill':
        v = I.rv(args[0])
        for i in range(k):
            I.store(el(i), v, et)
        return ('void',)
    if n in ('front', 'back'):
        return ('L', el(0 if n == 'front' else k - 1))
    if n in ('operator[]', 'at'):
        i = I.rv(args[0], 'unsigned long')
        if not I.fin(i):
            return NotImplemented
        if n == 'at' and I.branch(I.pw(lambda x: not 0 <= x < k, i)):
            throw('out_of_range')
        if not is_c(i):
            q = I.gather(el(0), i)
            if q is not None:
                return ('L', I.tmp_of(q, et))
        p = el(I.split(i))
        I.ctypes.setdefault(p, bare(et))
        return ('L', p)
    return NotImplemented


def bytes_of(I, a):
    """elements of an array object"""
    p = I.as_place(a)
    k = I.length(p)
    if k is None:
        return None
    et = I.elem_type(I.ctypes.get(p, ''))
    return [I.load((p[0], p[1] + ('#%d' % i,)), et, quiet=True) for i in range(k)]


def elems(I, args):
    xs = span(I, args[0], args[1])
    return xs


CT = {'isxdigit': lambda c: chr(c) in '0123456789abcdefABCDEF' and c >= 0, 'isdigit': lambda c: 48 <= c <= 57, 'isalpha': lambda c: 65 <= (c & ~32) <= 90 and c > 0,
      'isalnum': lambda c: 48 <= c <= 57 or c > 0 and 65 <= (c & ~32) <= 90, 'isspace': lambda c: c in (32, 9, 10, 11, 12, 13), 'isupper': lambda c: 65 <= c <= 90, 'islower': lambda c: 97 <= c <= 122,
      'tolower': lambda c: c + 32 if 65 <= c <= 90 else c, 'toupper': lambda c: c - 32 if 97 <= c <= 122 else c, 'ispunct': lambda c: 33 <= c <= 126 and not (48 <= c <= 57 or 65 <= (c & ~32) <= 90),
      'isprint': lambda c: 32 <= c <= 126, 'iscntrl': lambda c: 0 <= c < 32 or c == 127}


def draw(I, bits):
    """the next random word: constant filling, but for the one byte that varies"""
    v = I.mem[DRAWS][1]
    k = len(v)
    I.mem[DRAWS] = ('draws', v + (bits,))
    n = bits // 8
    x = int.from_bytes(bytes([I.fill]) * n, 'little')
    if I.vary and I.vary[0] == k and I.vary[1] < n:
        b = I.var(list(range(256)))
        return I.pw(lambda y: x & ~(255 << 8 * I.vary[1]) | y << 8 * I.vary[1], b)
    return C(x)


def hook(I, ref, this, args, node):
    n = ref.get('n', '')
    h = class_head(ref)
    sq = ref.get('sq', '')
    ps = ref.get('params') or []
    if this is None and sq == 'one_of':
        cs = chars(I.rv(args[0]))
        return I.var(sorted(int(c[1]) for c in cs))
    if this is None and sq == 'any_char':
        return I.var(list(range(-128, 128)))
    r = stream_hook(I, ref, this, args, node, n, h, ps)
    if r is not NotImplemented:
        return r
    if sq in ('snprintf', 'std::snprintf', 'sprintf', 'std::sprintf'):
        return snprintf(I, args, sq.endswith('snprintf'))
    if this is None and sq == 'ensure':
        v = I.rv(args[0], 'bool')
        if I.tabbed(v):
            return I.unknown_call(None, ref, None, [C(1 if I.branch(v) else 0)] + list(args[1:]), node)
        return NotImplemented
    if h in STRS and this is not None:
        return str_hook(I, ref, this, args, n, h)
    if h == 'std::array' and this is not None and ref.get('k') != 'ctor':
        return arr_hook(I, ref, this, args, n)
    if h == '__gnu_cxx::__normal_iterator' and this is not None:
        v = I.mem.get(this)
        if ref.get('k') == 'ctor':
            a = I.rv(args[0]) if args else ('null',)
            I.store(this, a, '', quiet=True)
            return ('void',)
        if v is not None and v[0] == 'ptr':
            if n == 'operator*':
                return ('L', v[1])
            if n in ('operator++', 'operator--'):
                I.mem[this] = I.ptr_add(v, C(1 if '+' in n else -1))
                return v if args else ('L', this)
            if n in ('operator+', 'operator-'):
                k = I.rv(args[0])
                return I.ptr_add(v, k if n == 'operator+' else I.pw(lambda x: -x, k))
            if n in ('operator+=', 'operator-='):
                k = I.rv(args[0])
                I.mem[this] = I.ptr_add(v, k if n == 'operator+=' else I.pw(lambda x: -x, k))
                return ('L', this)
            if n == 'operator[]':
                return ('L', I.ptr_add(v, I.rv(args[0]))[1])
            if n == 'base':
                return v
        return NotImplemented
    if n.startswith('operator') and this is None and len(args) == 2:
        op = n[8:].strip()
        hs = [head(p) for p in ps]
        if any(x.endswith('_ordering') for x in hs) and op in I.CMP:
            a, b = I.rv(args[0]), I.rv(args[1])
            if hs[0].endswith('_ordering') and I.fin(a):
                return I.pw(lambda x: I.CMP[op](x, 0), a)
            if I.fin(b):
                return I.pw(lambda x: I.CMP[op](0, x), b)
        if 'std::array' in hs and op in list(I.CMP) + ['<=>']:
            a, b = bytes_of(I, args[0]), bytes_of(I, args[1])
            r = cmpseq(I, a, b, unsigned=False) if a is not None and b is not None else None
            if r is None:
                return NotImplemented
            return r if op == '<=>' else I.pw(lambda x: I.CMP[op](x, 0), r)
        if (hs[0] in STRS or hs[1] in STRS) and sq.startswith('std::'):
            if op in list(I.CMP) + ['<=>']:
                a, b = text_of(I, args[0]), text_of(I, args[1])
                if a is None or b is None:
                    return NotImplemented
                if op in ('==', '!='):
                    r = eqtext(I, a, b)
                    return I.pw(lambda x: x ^ (op == '!='), r) if I.fin(r) else lnot(r) if op == '!=' else r
                r = cmpseq(I, a, b)
                return NotImplemented if r is None else r if op == '<=>' else I.pw(lambda x: I.CMP[op](x, 0), r)
            if op == '+':
                a, b = pieces(I, args[0]), pieces(I, args[1])
                if a is not None and b is not None:
                    return text(a + b)
                return NotImplemented
        a, b = I.rv(args[0]) if args[0][0] == 'L' else args[0], I.rv(args[1]) if args[1][0] == 'L' else args[1]
        if a[0] == 'ptr' and b[0] == 'ptr' and (op in I.CMP or op == '-'):
            r = I.binop(op, a, b, 'long')
            return r
        if op == '<=>' and a[0] == 'ptr' and b[0] == 'ptr':
            r = I.binop('-', a, b, 'long')
            return C((r[1] > 0) - (r[1] < 0)) if is_c(r) else NotImplemented
    m = re.match(r'(?:std::)?(\w+)$', sq)
    if m and m.group(1) in CT and this is None and len(args) == 1:
        v = I.rv(args[0])
        if I.fin(v):
            if any(x < -1 or x > 255 for x in I.possible(v)):
                I.ev_add('oob', what='%s of a negative character' % n)
            f = CT[m.group(1)]
            return I.pw(lambda c: int(f(c)) if -1 <= c < 256 else 0, v)
    if sq in ('memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy'):
        return copy_bytes(I, args)
    if sq in ('memcmp', 'std::memcmp', '__builtin_memcmp'):
        k = num(I, args[2])
        xs, ys = [span(I, I.rv(a), I.ptr_add(I.rv(a), C(k))) for a in args[:2]]
        if xs is not None and ys is not None:
            r = cmpseq(I, [I.load(p, I.ctypes.get(p, '')) for p in xs], [I.load(p, I.ctypes.get(p, '')) for p in ys])
            if r is not None:
                return r
    r = alg(I, ref, args, node, sq)
    if r is not NotImplemented:
        return r
    return random_hook(I, ref, this, args, node, n, h)


def digits(I, v, base=10, width=0, fill=C(32), upper=False, left=False):
    """the characters of an integer in a field of the given width"""
    def f(x):
        s = '%d' % x if base == 10 else ('%x' if base == 16 else '%o') % x
        return s.upper() if upper else s
    if not I.fin(v):
        return None
    n = I.split(I.pw(lambda x: len(f(x)), v)) if len({len(f(x)) for x in I.possible(v)}) > 1 and max(len(f(x)) for x in I.possible(v)) > width else None
    m = n if n is not None else max([width] + [len(f(x)) for x in I.possible(v)])
    out = []
    for k in range(m):
        def g(x, y):
            s = f(x)
            j = k if left else k - (m - len(s))
            return ord(s[j]) if 0 <= j < len(s) else y
        out.append(I.pw(g, v, fill))
    pad = [fill] * (width - len(out))
    return out + pad if left else pad + out


def padded(cs, width, fill, left):
    pad = [fill] * (width - len(cs))
    return list(cs) + pad if left else pad + list(cs)


FLAGS = {'hex': ('base', 16), 'dec': ('base', 10), 'oct': ('base', 8), 'uppercase': ('upper', True), 'nouppercase': ('upper', False), 'left': ('left', True), 'right': ('left', False), 'boolalpha': None, 'noboolalpha': None, 'noshowbase': None, 'flush': None}
FMT0 = (('base', 10), ('fill', C(32)), ('left', False), ('upper', False), ('width', 0))


def stream_hook(I, ref, this, args, node, n, h, ps):
    if h.startswith('std::basic_') and 'stream' in h and this is not None:
        if ref.get('k') == 'ctor' and 'string' in h and not is_copy(ref):
            cs = make_text(I, args[:1], ps[:1]) if args and head(ps[0]) in STRS else []
            if cs is not None:
                I.ctypes[this] = bare(ref.get('cls', ''))
                I.mem[this] = ('tstream', tuple(cs), FMT0)
                return ('void',)
    if this is not None:
        v = I.mem.get(this)
        if v is None or v[0] != 'tstream':
            return NotImplemented
        fmt = dict(v[2])
        if n in ('str', 'view') and not args:
            return text(v[1])
        if n == 'width' and args:
            fmt['width'] = num(I, args[0])
        elif n == 'fill' and args:
            fmt['fill'] = I.rv(args[0])
        elif n == 'put' and args:
            I.mem[this] = ('tstream', v[1] + (I.rv(args[0]),), v[2])
            return ('L', this)
        elif n == 'write' and len(args) == 2:
            cs = make_text(I, args, ['const char *', 'long'])
            if cs is None:
                return NotImplemented
            I.mem[this] = ('tstream', v[1] + tuple(cs), v[2])
            return ('L', this)
        elif n == 'operator<<' and len(args) == 1:
            t = bare(ps[0]) if ps else ''
            x = I.rv(args[0])
            if t in INTS and I.fin(x):
                if t != 'bool' and fmt['base'] != 10:
                    x = I.pw(lambda y: y & (1 << INTS[t][0]) - 1, x)
                cs = digits(I, x, fmt['base'], fmt['width'], fmt['fill'], fmt['upper'], fmt['left'])
                fmt['width'] = 0
                I.mem[this] = ('tstream', v[1] + tuple(cs), tuple(sorted(fmt.items())))
                return ('L', this)
            m = re.search(r'@F@(\w+)#', x[1]) if x[0] == 'fnptr' else None
            if m and m.group(1) in FLAGS:
                if FLAGS[m.group(1)]:
                    fmt[FLAGS[m.group(1)][0]] = FLAGS[m.group(1)][1]
            else:
                return NotImplemented
        else:
            return NotImplemented
        I.mem[this] = ('tstream', v[1], tuple(sorted(fmt.items())))
        return ('L', this)
    if ref.get('sq') in ('std::setw', 'std::setfill', 'std::setbase') and len(args) == 1:
        return ('u', ref['sq'][5:], I.rv(args[0]))
    if n == 'operator<<' and len(args) == 2 and args[0][0] == 'L':
        v = I.mem.get(args[0][1])
        if v is None or v[0] != 'tstream':
            return NotImplemented
        fmt = dict(v[2])
        cs = ()
        x = I.rv(args[1])
        if x[0] == 'u' and x[1] in ('setw', 'setfill', 'setbase'):
            fmt[{'setw': 'width', 'setfill': 'fill', 'setbase': 'base'}[x[1]]] = x[2] if x[1] == 'setfill' else num(I, x[2])
        elif head(ps[1]) in STRS or 'char' in ps[1]:
            cs = pieces(I, args[1])
            if cs is None:
                return NotImplemented
            cs = padded(cs, fmt['width'], fmt['fill'], fmt['left'])
            fmt['width'] = 0
        else:
            return NotImplemented
        I.mem[args[0][1]] = ('tstream', v[1] + tuple(cs), tuple(sorted(fmt.items())))
        return ('L', args[0][1])
    return NotImplemented


def snprintf(I, args, bounded):
    dst = ('ptr', args[0][1]) if args[0][0] == 'L' and I.pos(args[0][1]) is not None and not I.mem.get(args[0][1], ('?',))[0] == 'ptr' else I.rv(args[0])
    cap = num(I, args[1]) if bounded else None
    rest = args[2:] if bounded else args[1:]
    fmt = I.rv(rest[0])
    if dst[0] != 'ptr' or fmt[0] != 'str' or I.pos(dst[1]) is None:
        return NotImplemented
    s, xs, out, i = fmt[1], list(rest[1:]), [], 0
    while i < len(s):
        if s[i] != '%':
            out.append(C(ord(s[i])))
            i += 1
            continue
        m = re.compile(r'%(?:(%)|([-0]*)(\d*)(?:hh|h|l|ll|z)?([duxXocs]))').match(s, i)
        if not m:
            return NotImplemented
        i = m.end()
        if m.group(1):
            out.append(C(37))
            continue
        flags, width, conv = m.group(2), int(m.group(3) or 0), m.group(4)
        if not xs:
            return NotImplemented
        x = xs.pop(0)
        if conv == 's':
            cs = text_of(I, x)
        elif conv == 'c':
            cs = [I.rv(x)]
        else:
            x = I.rv(x)
            if not I.fin(x):
                return NotImplemented
            if conv != 'd':
                x = I.pw(lambda y: y & 0xffffffff if y < 0 else y, x)
            left = '-' in flags
            cs = digits(I, x, {'x': 16, 'X': 16, 'o': 8}.get(conv, 10), width, C(48) if '0' in flags and not left else C(32), conv == 'X', left)
        if cs is None:
            return NotImplemented
        out += padded(cs, width, C(32), '-' in flags)
    w = out if cap is None else out[:max(0, cap - 1)]
    if cap != 0:
        for k, c in enumerate(w + [ZERO]):
            b, j = I.pos(dst[1])
            I.store((b[0], b[1] + (('ch', j + k) if is_ch(dst[1]) else '#%d' % (j + k),)), c, 'char')
    return C(len(out))


def copy_bytes(I, args):
    k = num(I, args[2])
    d, s = I.rv(args[0]), I.rv(args[1])
    if k is None or d[0] != 'ptr' or s[0] != 'ptr':
        return NotImplemented

    def strip(p):
        return (p[0], p[1][:-1]) if p[1] and isinstance(p[1][-1], str) and p[1][-1].startswith('as:') else p
    d, s = ('ptr', strip(d[1])), ('ptr', strip(s[1]))
    if I.pos(s[1]) is None:
        t = bare(I.ctypes.get(s[1], ''))
        v = I.load(s[1], t)
        if t not in INTS or not I.fin(v):
            return NotImplemented
        src = [I.pw(lambda x: x >> 8 * i & 255, v) for i in range(min(k, INTS[t][0] // 8))]
    else:
        i, j = I.pos(s[1])
        et = bare(I.elem_type(I.ctypes.get(i, '')) or 'unsigned char')
        w = INTS.get(et, (8, False))[0] // 8
        if w == 1:
            src = [I.load(p, et) for p in span(I, s, I.ptr_add(s, C(k)))]
        else:
            src = []
            for p in span(I, s, I.ptr_add(s, C(-(-k // w)))):
                v = I.load(p, et)
                if not I.fin(v):
                    return NotImplemented
                src += [I.pw(lambda x: x >> 8 * b & 255, v) for b in range(w)]
            src = src[:k]
    if I.pos(d[1]) is None:
        t = bare(I.ctypes.get(d[1], ''))
        if t in INTS and INTS[t][0] == 8 * k and all(I.fin(x) for x in src):
            r = ZERO
            for b, x in enumerate(src):
                r = I.pw(lambda p, q: p | (q & 255) << 8 * b, r, x)
            I.store(d[1], I.pw(lambda p: wrap(p, t), r), t)
            return d
        return NotImplemented
    ds = span(I, d, I.ptr_add(d, C(k)))
    for p, x in zip(ds, src):
        I.store(p, I.pw(lambda y: wrap(y, I.ctypes.get(p, 'unsigned char')), x) if I.fin(x) else x, I.ctypes.get(p, 'unsigned char'))
    return d


ALGS = {'all_of', 'any_of', 'none_of', 'count', 'count_if', 'find', 'find_if', 'find_if_not', 'equal', 'copy', 'copy_if', 'copy_n', 'transform', 'for_each', 'fill', 'fill_n', 'remove', 'remove_if', 'accumulate',
        'lexicographical_compare', 'reverse', 'generate', 'generate_n', 'distance', 'next', 'prev', 'begin', 'end', 'cbegin', 'cend', 'size', 'data', 'lexicographical_compare_three_way', 'mismatch', 'erase', 'erase_if', 'advance', 'ssize', 'empty', 'back_inserter', 'to_integer', 'swap'}


def alg(I, ref, args, node, sq):
    m = re.match(r'std::(ranges::)?(?:__)?(\w+?)(?:_fn::operator\(\))?$', sq)
    if not m or m.group(2) not in ALGS or not args:
        return NotImplemented
    f = m.group(2)
    args = list(args)
    if f in ('size', 'ssize', 'data', 'begin', 'end', 'cbegin', 'cend', 'empty') and len(args) == 1:
        p = I.as_place(args[0])
        t = I.ctypes.get(p, '')
        if head(t) in STRS:
            return str_hook(I, dict(n=f.replace('ssize', 'size'), cls=t), p, [], f.replace('ssize', 'size'), head(t))
        k = I.length(p)
        if k is None:
            return NotImplemented
        el = lambda i: (p[0], p[1] + ('#%d' % i,))
        return {'size': C(k), 'ssize': C(k), 'empty': C(k == 0)}.get(f) or ('ptr', el(k if 'end' in f else 0))
    if f in ('erase', 'erase_if') and args[0][0] == 'L':
        cs = chars(I.mem.get(args[0][1]))
        if cs is None:
            return NotImplemented
        out = []
        for c in cs:
            x = I.rv(args[1])
            hit = I.pw(lambda a, b: a == b, c, x) if f == 'erase' else call(I, args[1], c)
            if not I.branch(I.boolterm(hit, 'bool')):
                out.append(c)
        I.store(args[0][1], text(out), I.ctypes.get(args[0][1], ''))
        return C(len(cs) - len(out))
    if f in ('next', 'prev', 'advance'):
        v = I.rv(args[0])
        if v[0] != 'ptr' or I.pos(v[1]) is None:
            return NotImplemented
        k = I.rv(args[1]) if len(args) > 1 else ONE
        r = I.ptr_add(v, I.pw(lambda x: -x if f == 'prev' else x, k))
        if f == 'advance':
            I.store(args[0][1], r, '', quiet=True)
            return ('void',)
        return r
    # ranges versions: first argument a container
    if m.group(1) and not (len(args) > 1 and I.rv(args[0])[0] == 'ptr'):
        p = I.as_place(args[0])
        t = I.ctypes.get(p, '')
        if head(t) in STRS and chars(I.mem.get(p)) is not None:
            o = owner(I, p, t)
            args[:1] = [at(o, 0), at(o, len(chars(I.mem[p])))]
        elif I.length(p) is not None:
            args[:1] = [('ptr', (p[0], p[1] + ('#0',))), ('ptr', (p[0], p[1] + ('#%d' % I.length(p),)))]
        else:
            return NotImplemented
    if f == 'fill_n' or f == 'generate_n' or f == 'copy_n':
        k = num(I, args[1])
        v = I.rv(args[0])
        if v[0] != 'ptr' or k is None:
            return NotImplemented
        args[1] = I.ptr_add(v, C(k))
        f = f[:-2]
    xs = span(I, args[0], args[1]) if len(args) > 1 else None
    if xs is None:
        return NotImplemented
    get = lambda p: I.load(p, I.ctypes.get(p, ''))
    end = I.rv(args[1])
    if f == 'distance':
        return C(len(xs))
    if f in ('all_of', 'any_of', 'none_of'):
        for p in xs:
            if I.truth(call(I, args[2], ('L', p)), 'bool') != (f == 'all_of'):
                return C(f == 'none_of' and 0 or f == 'any_of')
        return C(f != 'any_of')
    if f in ('find', 'find_if', 'find_if_not'):
        for p in xs:
            hit = I.binop('==', get(p), I.rv(args[2]), 'bool') if f == 'find' else call(I, args[2], ('L', p))
            if I.truth(hit, 'bool') != (f == 'find_if_not'):
                return ('ptr', p)
        return end
    if f in ('count', 'count_if'):
        r = ZERO
        for p in xs:
            hit = I.boolterm(I.binop('==', get(p), I.rv(args[2]), 'bool') if f == 'count' else I.rv(call(I, args[2], ('L', p))), 'bool')
            r = I.pw(lambda a, b: a + (b != 0), r, hit) if I.fin(hit) else ('s', 'count')
        return r
    if f == 'fill':
        for p in xs:
            I.store(p, I.rv(args[2]), I.ctypes.get(p, ''))
        return ('void',)
    if f == 'generate':
        for p in xs:
            v = I.rv(call(I, args[2]))
            I.store(p, I.int_cast(v, bare(I.ctypes.get(p, 'unsigned char')), 'int'), I.ctypes.get(p, ''))
        return ('void',)
    if f == 'for_each':
        for p in xs:
            call(I, args[2], ('L', p))
        return ('void',)
    if f in ('remove', 'remove_if'):
        kept = []
        for p in xs:
            hit = I.binop('==', get(p), I.rv(args[2]), 'bool') if f == 'remove' else call(I, args[2], ('L', p))
            if not I.truth(hit, 'bool'):
                kept.append(get(p))
        for p, v in zip(xs, kept):
            I.store(p, v, I.ctypes.get(p, ''))
        return ('ptr', xs[len(kept)]) if len(kept) < len(xs) else end
    if f in ('equal', 'lexicographical_compare'):
        if len(args) == 3:
            b = I.rv(args[2])
            ys = span(I, b, I.ptr_add(b, C(len(xs))))
        else:
            ys = span(I, args[2], args[3])
        if ys is None:
            return NotImplemented
        a, b = [get(p) for p in xs], [get(p) for p in ys]
        if f == 'equal':
            return eqtext(I, a, b)
        r = cmpseq(I, a, b, unsigned=False)
        return NotImplemented if r is None else I.pw(lambda x: x < 0, r)
    if f in ('copy', 'transform', 'copy_if') and len(args) >= 3:
        d = I.rv(args[2])
        vs = []
        for p in xs:
            if f == 'transform':
                vs.append(I.rv(call(I, args[3], ('L', p))))
            elif f == 'copy' or I.truth(call(I, args[3], ('L', p)), 'bool'):
                vs.append(get(p))
        if d[0] == 'u' and d[1] == 'back_inserter' and d[2][0] == 'ptr':
            q = d[2][1]
            cs = chars(I.mem.get(q))
            if cs is None:
                return NotImplemented
            I.store(q, text(list(cs) + [I.int_cast(v, 'char', 'int') for v in vs]), I.ctypes.get(q, ''))
            return d
        if d[0] != 'ptr' or I.pos(d[1]) is None:
            return NotImplemented
        for k, v in enumerate(vs):
            p = I.ptr_add(d, C(k))[1]
            t = 'char' if is_ch(p) else I.elem_type(I.ctypes.get(I.pos(p)[0], '')) or 'unsigned char'
            I.store(p, I.int_cast(v, bare(t), 'int') if I.fin(v) else v, t)
        return I.ptr_add(d, C(len(vs)))
    return NotImplemented


def call(I, f, *args):
    return I.call_value(f if f[0] != 'L' else f, [a if a[0] == 'L' else ('L', I.tmp_of(a, 'char')) for a in args])


def random_hook(I, ref, this, args, node, n, h):
    sq = ref.get('sq', '')
    if h in ('std::mersenne_twister_engine', 'std::linear_congruential_engine', 'std::subtract_with_carry_engine'):
        if ref.get('k') == 'ctor':
            if is_copy(ref):
                v = I.mem.get(I.as_place(args[0]))
                if v is None:
                    return NotImplemented
            else:
                a = I.term_of(args[0]) if args else ('s', 'default seed')
                v = ('engine', a)
            I.store(this, v, '', quiet=True)
            return ('void',)
        if n == 'seed':
            I.store(this, ('engine', I.term_of(args[0]) if args else ('s', 'default seed')), '', quiet=True)
            return ('void',)
        if n == 'operator()':
            v = I.mem.get(this)
            I.ev_add('draw', engine=v)
            return draw(I, 64 if '64' in ref.get('ret', '') or bare(ref.get('ret', '')) == 'unsigned long' and ', 64,' in (I.ctypes.get(this) or ref.get('cls', '')) else 32)
    if h == 'std::random_device':
        if ref.get('k') == 'ctor':
            I.store(this, ('s', 'random_device'), '', quiet=True)
            return ('void',)
        if n == 'operator()':
            I.nfresh += 1
            return ('s', 'entropy%d' % I.nfresh, 'i', 'nn')
    if h == 'std::uniform_int_distribution':
        t = bare(split_targs(bare(I.ctypes.get(this) or ref.get('cls', '')))[1][0])
        bits = INTS.get(t, (32, True))[0]
        if ref.get('k') == 'ctor':
            if is_copy(ref):
                I.store(this, I.mem.get(I.as_place(args[0]), ('s', 'dist')), '', quiet=True)
                return ('void',)
            lo = I.rv(args[0]) if args else ZERO
            hi = I.rv(args[1]) if len(args) > 1 else C((1 << (bits - (1 if INTS.get(t, (32, True))[1] else 0))) - 1)
            I.store(this, ('dist', lo, hi), '', quiet=True)
            return ('void',)
        if n == 'operator()':
            v = I.mem.get(this)
            g = I.mem.get(I.as_place(args[0])) if args[0][0] == 'L' else args[0]
            if v is None or v[0] != 'dist':
                I.ev_add('draw', engine=g, narrow='unknown range')
                return draw(I, bits)
            lo, hi = v[1], v[2]
            b = next((b for b in (8, 16, 32, 64) if lo == ZERO and hi == C((1 << b) - 1)), None)
            I.ev_add('draw', engine=g, narrow=None if b else 'from %s to %s' % (show(lo), show(hi)))
            return draw(I, b or bits)
    if h == 'std::numeric_limits' or sq.startswith('std::numeric_limits'):
        return NotImplemented
    if sq == 'std::back_inserter':
        return ('u', 'back_inserter', ('ptr', I.as_place(args[0])))
    return NotImplemented

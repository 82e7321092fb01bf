"""Texts made of literals and rendered numbers: a text is a sequence of pieces; a piece is a literal, the digits of a
(symbolic) integer, the rendering of a floating-point number with a given format, or such a piece in a field of a given width.
Used by laws about what to_string() and operator<< write for every value."""
import re
from absint import Interp, PathEnd
from terms import *
from prog import INTS, FLOATS
from models import head, bare, concat, STRS, is_copy


DIGITS = (('digits',), ())
MEMO = {}


class Texts(Interp):
    """comparisons of the number of digits of an integer are comparisons of the integer"""
    def canon(self, v):
        return canon_round(v, lambda q: self.branch(lt(q, ZERO)))

    def branch(self, t):
        n = False
        while t[0] == 'not':
            t, n = t[1], not n
        if t[0] in ('lt0', 'eq0'):
            p = to_poly(t[1])
            ds = [(m, c) for m, c in p.items() if any(a[0] == 'u' and a[1] == 'ndig' for a, e in m)]
            if len(ds) == 1 and len(ds[0][0]) == 1 and ds[0][0][0][1] == 1 and all(not m or m == ds[0][0] for m in p):
                v, c, k = ds[0][0][0][0][2], ds[0][1], p.get((), 0)
                b = -k / c                                          # compared with b
                ceil = -((-b).__floor__())
                if t[0] == 'eq0':
                    r = b == ceil and self.below(v, ceil + 1) and not self.below(v, ceil)
                elif c > 0:
                    r = self.below(v, ceil)                         # ndig < b
                else:
                    r = not self.below(v, b.__floor__() + 1)        # ndig > b
                return r != n
            if t[0] == 'lt0' and len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'floor' and c > 0:
                    return self.branch(lt(m[0][0][1], ZERO)) != n           # floor(x) < 0 exactly if x < 0
            if self.numeric_prune and t not in self.facts:       # without what is known about digits, once for all paths
                dg = self.mem.get(DIGITS, ('facts',))[1:]
                base = [kv for kv in self.facts.items() if kv[0] not in dg]
                key = (t, frozenset(base))
                if key not in MEMO:
                    MEMO[key] = [o for o in (True, False) if feasible(base + [(t, o)], self.ints)]
                if len(MEMO[key]) == 1:
                    self.facts[t] = MEMO[key][0]
                    return MEMO[key][0] != n
        return super().branch(('not', t) if n else t)

    def below(self, v, k):
        """v has fewer than k digits"""
        if k <= 1:
            return False
        key = (('ndig', v), ())
        _, lo, hi = self.mem.get(key, ('range', 1, 99))
        if k <= lo or k > hi:
            return k > hi
        t = lt(v, C(10 ** (int(k) - 1)))
        r = self.facts.get(t)
        if r is None:                   # both are followed; whether they are possible is looked at when a law fails
            r = self.choose(2) == 0
            self.facts[t] = r
            self.mem[DIGITS] = self.mem.get(DIGITS, ('facts',)) + (t,)
        self.mem[key] = ('range', lo, int(k) - 1) if r else ('range', int(k), hi)
        return r


FMT0 = (('base', 10), ('fill', ' '), ('left', False), ('mode', 'g'), ('plus', False), ('prec', 6), ('upper', False), ('width', 0))
CHARS = ('char', 'signed char', 'unsigned char')
FLAGS = {'hex': ('base', 16), 'dec': ('base', 10), 'oct': ('base', 8), 'left': ('left', True), 'right': ('left', False), 'internal': ('left', None), 'fixed': ('mode', 'f'),
         'scientific': ('mode', 'e'), 'defaultfloat': ('mode', 'g'), 'uppercase': ('upper', True), 'nouppercase': ('upper', False), 'showpos': ('plus', True), 'noshowpos': ('plus', False),
         'boolalpha': None, 'noboolalpha': None, 'noshowbase': None, 'flush': None}


def parts(t):
    return list(t[2:]) if t[0] == 'u' and t[1] == 'concat' else [] if t == ('str', '') else [t]


def number(v, fmt):
    if is_c(v) and v[1] == int(v[1]) and fmt['base'] == 10:
        return ('str', ('+' if fmt['plus'] and v[1] >= 0 else '') + '%d' % v[1])
    extra = tuple(x for x in (('base', fmt['base']) if fmt['base'] != 10 else None, 'upper' if fmt['base'] == 16 and fmt['upper'] else None, 'plus' if fmt['plus'] else None) if x)
    return ('u', 'num', v) + tuple(('str', str(x)) for x in extra)


def real(v, fmt):
    return ('u', 'real', v, ('str', fmt['mode'].upper() if fmt['upper'] else fmt['mode']), C(fmt['prec'])) + ((('str', 'plus'),) if fmt['plus'] else ())


def field(t, width, fill, left):
    """the text t in a field of the given width"""
    if all(p[0] == 'str' for p in parts(t)):
        s = t[1]
        n = width - len(s)
        if n > 0:
            if left is None and s[:1] in '+-' and s[:1]:
                s = s[0] + fill * n + s[1:]
            else:
                s = s + fill * n if left else fill * n + s
        return ('str', s)
    if width <= 1:
        return t
    return ('u', 'field', t, C(width), ('str', fill), ('str', {True: 'left', False: 'right', None: 'internal'}[left]))


def buffer(I, a):
    """where the text of a character array is kept"""
    if a[0] == 'L' and not I.mem.get(a[1], ('?',))[0] == 'ptr':
        p = a[1]
    else:
        v = I.rv(a)
        if v[0] != 'ptr':
            return None
        p = v[1]
    return (('text', p[0][1] if p[0][0] == 'elem' and isinstance(p[0][1], tuple) else p), ())


def text(I, a, t=''):
    """the term of a text argument of C++ type t"""
    t = bare(t)
    b = buffer(I, a)
    if b in I.mem and I.mem[b][0] == 'ttext':
        return I.mem[b][1]
    v = I.rv(a, t)
    if t in CHARS or (is_c(v) and t not in INTS):
        return ('str', chr(int(v[1]) & 255)) if is_c(v) else ('u', 'chars', v)
    if v[0] == 'str' or v[0] == 's' or (v[0] == 'u' and v[1] in ('concat', 'num', 'real', 'field', 'chars', 'cstr', 'substr')):
        return v[2] if v[0] == 'u' and v[1] == 'cstr' else v
    return None


def size(I, t):
    """the number of characters, in terms of the numbers of digits"""
    n = ZERO
    for p in parts(t):
        if p[0] == 'str':
            n = add(n, C(len(p[1])))
        elif p[0] == 'u' and p[1] == 'chars':
            n = add(n, ONE)
        elif p[0] == 'u' and p[1] == 'num' and len(p) == 3:
            v = I.canon(p[2])
            n = add(n, add(('u', 'ndig', sub(C(0), v)), ONE) if I.branch(lt(v, C(0))) else ('u', 'ndig', v))
        elif p[0] == 'u' and p[1] == 'field':
            k = size(I, p[2])
            if k is None:
                return None
            n = add(n, p[3] if I.branch(lt(k, p[3])) else k)
        else:
            return None
    return n


def amount(I, n):
    """a number in terms of numbers of digits, decided by cases"""
    if is_c(n):
        return int(n[1])
    for a in [a for m in to_poly(n) for a, e in m]:
        if a[0] != 'u' or a[1] != 'ndig':
            return None
        k = 1
        while k < 20 and not I.below(a[2], k + 1):
            k += 1
        n = subst1(n, a, C(k))
    return int(n[1]) if is_c(n) else None


def subst1(t, a, v):
    out = ZERO
    for m, c in to_poly(t).items():
        r = C(c)
        for x, e in m:
            for _ in range(e):
                r = mul(r, v if x == a else x)
        out = add(out, r)
    return out


def expand(I, t):
    """fields written out, by cases on the number of digits"""
    out = ('str', '')
    for p in parts(t):
        if p[0] == 'u' and p[1] == 'field':
            inner = expand(I, p[2])
            n = size(I, inner)
            n = None if n is None else 0 if not I.branch(lt(n, p[3])) else amount(I, sub(p[3], n))
            if n is None:
                out = concat(out, p)
                continue
            pad = ('str', p[4][1] * n)
            out = concat(out, concat(inner, pad) if p[5][1] == 'left' else concat(pad, inner)) if p[5][1] != 'internal' else concat(out, p)
        else:
            out = concat(out, p)
    return out


def canonical(I, t):
    out = ('str', '')
    for p in parts(t):
        if p[0] == 'u' and p[1] in ('num', 'field'):
            p = p[:2] + ((I.canon(p[2]) if p[1] == 'num' else canonical(I, p[2])),) + p[3:]
        if p[0] == 'u' and p[1] == 'num' and is_c(p[2]) and len(p) == 3:
            p = ('str', '%d' % p[2][1])
        out = concat(out, p)
    return out


def same(I, a, b):
    """whether two texts are equal on this path"""
    if a == b:
        return C(1)
    a, b = canonical(I, a), canonical(I, b)
    if a == b:
        return C(1)

    def aligned(a, b):
        xs, ys = parts(a), parts(b)
        if len(xs) != len(ys):
            return None
        r = C(1)
        for x, y in zip(xs, ys):
            if x == y:
                continue
            if x[0] == 'u' and y[0] == 'u' and x[1] == y[1] and x[1] in ('num', 'real') and x[3:] == y[3:]:
                r = r if I.branch(eq(x[2], y[2])) else C(0)
            elif x[0] == 'u' and y[0] == 'u' and x[1] == y[1] == 'field' and x[3:] == y[3:]:
                s = aligned(x[2], y[2])
                if s is None:
                    return None
                r = r if s == C(1) else s
            else:
                return None
        return r
    r = aligned(a, b)
    if r is None:
        a, b = expand(I, a), expand(I, b)
        if a == b:
            return C(1)
        r = aligned(a, b)
    if r is None and not feasible(list(I.facts.items()), I.ints):
        raise PathEnd('infeasible')
    return C(0) if r is None else r


def insert(I, v, x, t, fmt):
    """the pieces written by << x of type t under the format; the width is used up"""
    if t in CHARS or head(t) in STRS or 'char' in t:
        s = text(I, x, t)
    elif t in INTS:
        s = number(I.rv(x, t), fmt)
    elif t in FLOATS:
        s = real(I.rv(x, t), fmt)
    else:
        return None
    if s is None:
        return None
    s = field(s, fmt['width'], fmt['fill'], fmt['left'])
    fmt['width'] = 0
    return ('ttext', concat(v[1], s), tuple(sorted(fmt.items())))


def stream_hook(I, ref, this, args, n, h, ps):
    if h.startswith('std::basic_') and 'stream' in h and this is not None and ref.get('k') == 'ctor' and 'string' in h and not is_copy(ref):
        if not args or 'openmode' in ps[0]:
            s = ('str', '')
        elif head(ps[0]) in STRS:
            s = text(I, args[0], ps[0])
            if s is None:
                return NotImplemented
            if s != ('str', '') and not any('openmode' in p for p in ps):
                return NotImplemented       # the text would be overwritten
        else:
            return NotImplemented
        I.ctypes[this] = bare(ref.get('cls', ''))
        I.mem[this] = ('ttext', s, FMT0)
        return ('void',)
    if this is not None:
        v = I.mem.get(this)
        if v is None or v[0] != 'ttext':
            return NotImplemented
        fmt = dict(v[2])
        if n in ('str', 'view'):
            if not args:
                return v[1]
            I.mem[this] = ('ttext', text(I, args[0], ps[0]) or ('str', ''), v[2])
            return ('void',)
        if n in ('fail', 'bad', 'eof', 'operator!'):
            return C(0)
        if n == 'good' or ref.get('k') == 'conv':
            return C(1)
        if n in ('width', 'precision', 'fill') and not args:
            return C(fmt['width']) if n == 'width' else C(fmt['prec']) if n == 'precision' else C(ord(fmt['fill']))
        a = I.rv(args[0]) if args else None
        if n in ('width', 'precision') and is_c(a):
            old = fmt['width' if n == 'width' else 'prec']
            fmt['width' if n == 'width' else 'prec'] = int(a[1])
            I.mem[this] = ('ttext', v[1], tuple(sorted(fmt.items())))
            return C(old)
        if n == 'fill' and is_c(a):
            old = fmt['fill']
            fmt['fill'] = chr(int(a[1]))
            I.mem[this] = ('ttext', v[1], tuple(sorted(fmt.items())))
            return C(ord(old))
        if n == 'put' and args:
            I.mem[this] = ('ttext', concat(v[1], text(I, args[0], 'char')), v[2])
            return ('L', this)
        if n == 'flush':
            return ('L', this)
        if n == 'operator<<' and len(args) == 1:
            m = re.search(r'@F@(\w+)#', a[1]) if a[0] == 'fnptr' else None
            if m and m.group(1) in FLAGS:
                if FLAGS[m.group(1)]:
                    fmt[FLAGS[m.group(1)][0]] = FLAGS[m.group(1)][1]
                I.mem[this] = ('ttext', v[1], tuple(sorted(fmt.items())))
                return ('L', this)
            r = insert(I, v, args[0], bare(ps[0]), fmt)
            if r is None:
                return NotImplemented
            I.mem[this] = r
            return ('L', this)
        return NotImplemented
    if ref.get('sq') in ('std::setw', 'std::setfill', 'std::setprecision') and len(args) == 1:
        return ('u', ref['sq'][5:], I.rv(args[0]))
    if n == 'operator<<' and len(args) == 2 and args[0][0] == 'L':
        v = I.mem.get(args[0][1])
        if v is None or v[0] != 'ttext':
            return NotImplemented
        fmt = dict(v[2])
        x = I.rv(args[1])
        if x[0] == 'u' and x[1] in ('setw', 'setfill', 'setprecision'):
            if not is_c(x[2]):
                return NotImplemented
            fmt[{'setw': 'width', 'setfill': 'fill', 'setprecision': 'prec'}[x[1]]] = chr(int(x[2][1])) if x[1] == 'setfill' else int(x[2][1])
            I.mem[args[0][1]] = ('ttext', v[1], tuple(sorted(fmt.items())))
            return ('L', args[0][1])
        r = insert(I, v, args[1], bare(ps[1]), fmt)
        if r is None:
            return NotImplemented
        I.mem[args[0][1]] = r
        return ('L', args[0][1])
    return NotImplemented


def printf(I, fmt, xs):
    """the text a printf format makes"""
    out, i, xs = ('str', ''), 0, list(xs)
    while i < len(fmt):
        if fmt[i] != '%':
            out = concat(out, ('str', fmt[i]))
            i += 1
            continue
        m = re.compile(r'%(?:(%)|([-0+]*)(\d*)(?:\.(\d+))?(?:hh|h|ll|l|j|z|t|L)?([duifeEgGcs]))').match(fmt, i)
        if not m:
            return None
        i = m.end()
        if m.group(1):
            out = concat(out, ('str', '%'))
            continue
        if not xs:
            return None
        x, fl, w, conv = xs.pop(0), m.group(2), int(m.group(3) or 0), m.group(5)
        f = dict(FMT0)
        f['plus'] = '+' in fl
        if conv in 'dui':
            if m.group(4):
                return None
            v = I.rv(x)
            s = number(v, f)
            zero = '0' in fl and '-' not in fl
            left = True if '-' in fl else False
            if zero:
                left = False if not f['plus'] and not I.branch(lt(v, C(0))) else None
            s = field(s, w, '0' if zero else ' ', left)
        elif conv in 'feEgG':
            f['mode'], f['upper'], f['prec'] = conv.lower(), conv.isupper(), int(m.group(4) or 6)
            s = field(real(I.rv(x), f), w, '0' if '0' in fl else ' ', True if '-' in fl else None if '0' in fl else False)
        else:
            s = text(I, x, 'char' if conv == 'c' else 'char *')
            if s is None or m.group(4):
                return None
            s = field(s, w, ' ', '-' in fl)
        out = concat(out, s)
    return out


def hook(I, ref, this, args, node):
    n, sq = ref.get('n', ''), ref.get('sq', '')
    ps = ref.get('params') or []
    c = bare(ref.get('cls', '') or '')
    h = head(c) if c else ''
    if this is None and sq in ('digits', 'padded') and args:
        s = number(I.rv(args[0]), dict(FMT0))
        return field(s, int(I.rv(args[1])[1]), '0', False) if sq == 'padded' else s
    if this is None and sq == 'decimals':
        f = dict(FMT0)
        f['mode'] = 'f'
        return real(I.rv(args[0]), f)
    if sq == 'std::to_string' and this is None:
        t = bare(ps[0])
        f = dict(FMT0)
        if t in FLOATS:
            f['mode'] = 'f'
            return real(I.rv(args[0], t), f)
        return number(I.rv(args[0], t), f)
    r = stream_hook(I, ref, this, args, n, h, ps)
    if r is not NotImplemented:
        return r
    if sq in ('snprintf', 'std::snprintf', 'sprintf', 'std::sprintf'):
        k = 2 if 'sn' in sq else 1
        f = I.rv(args[k])
        s = printf(I, f[1], args[k + 1:]) if f[0] == 'str' else None
        b = buffer(I, args[0])
        if s is None or b is None:
            return NotImplemented
        I.mem[b] = ('ttext', s)             # assumed to fit
        return size(I, s) or I.ret_fresh(ref, n)
    if h in STRS and this is not None:
        if ref.get('k') == 'ctor':
            if len(args) >= 2 and 'char' == bare(ps[1]):
                k, ch = amount(I, I.rv(args[0])), I.rv(args[1])
                if k is not None and is_c(ch):
                    I.store(this, ('str', chr(int(ch[1])) * k), c, quiet=True)
                    return ('void',)
            if args and 'char' in ps[0] and '*' in ps[0] and buffer(I, args[0]) in I.mem:
                I.store(this, text(I, args[0], ps[0]), c, quiet=True)
                return ('void',)
            return NotImplemented
        s = I.load(this, c, quiet=True)
        if n in ('size', 'length') and s[0] == 'u' and s[1] in ('concat', 'num', 'field', 'chars'):
            k = size(I, s)
            if k is not None:
                return k
        if n == 'empty' and s[0] == 'u' and s[1] in ('concat', 'num', 'field', 'chars', 'real'):
            return C(0)
        if n in ('append', 'insert') and args and (len(args) == 3 or n == 'append' and len(args) == 2) and bare(ps[-1]) == 'char':
            a = [I.rv(x) for x in args]
            k, ch = amount(I, a[-2]), a[-1]
            if k is not None and is_c(ch):
                t = ('str', chr(int(ch[1])) * k)
                if n == 'append':
                    I.store(this, concat(s, t), c)
                    return ('L', this)
                if a[0] == C(0):
                    I.store(this, concat(t, s), c)
                    return ('L', this)
        if n == 'insert' and len(args) == 2 and I.rv(args[0]) == C(0):
            t = text(I, args[1], ps[1])
            if t is not None:
                I.store(this, concat(t, s), c)
                return ('L', this)
        if n in ('operator+=', 'append') and len(args) == 1 and '*' in ps[0] and buffer(I, args[0]) in I.mem:
            I.store(this, concat(s, text(I, args[0], ps[0])), c)
            return ('L', this)
        if n == 'operator=' and bare(ps[0]) == 'char':
            I.store(this, text(I, args[0], 'char'), c)
            return ('L', this)
        return NotImplemented
    if n in ('operator==', 'operator!=') and this is None and len(args) == 2 and sq.startswith('std::') and any(head(p) in STRS for p in ps):
        a, b = text(I, args[0], ps[0]), text(I, args[1], ps[1])
        if a is None or b is None:
            return NotImplemented
        r = same(I, a, b)
        return lnot(r) if n == 'operator!=' else r
    return NotImplemented

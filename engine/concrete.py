"""Concrete sequences and structured strings: a hook for the interpreter under which std::vector (deque, list) objects
made by the analysed code keep their exact elements, strings are sequences of literal pieces and arbitrary pieces with
known properties, and string streams keep what is left to read.  Everything is exact; what cannot be represented is
left to the general models."""
import re
from terms import *
from prog import bare, split_targs, INTS, AnalysisBroken
import models
from models import head, T, size_of, concat, charat, EMPTY, NPOS, STRS, class_head, is_copy, convert_to

CSEQ = {'std::vector', 'std::deque', 'std::list', 'std::forward_list'}
ITERS = {'__gnu_cxx::__normal_iterator', 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator'}
ATOM = {}          # name -> (minimal length, characters it does not contain, characters it does not start with)


def atom(name, minlen=1, no='', notfirst=''):
    ATOM[name] = (minlen, set(no), set(no) | set(notfirst))
    return ('s', name)


def props(x):
    return ATOM.get(x[1]) if x[0] == 's' and isinstance(x[1], str) else None


# ------------------------------------------------------------------ strings
def parts(s):
    if s[0] == 'str':
        return [s] if s[1] else []
    if s[0] == 'u' and s[1] == 'concat':
        if any(x[0] == 'u' and x[1] == 'stream_str' for x in s[2:]):
            return plain(join_all([y for x in s[2:] for y in parts(x)]))
        return list(s[2:])
    if s[0] == 'u' and s[1] == 'stream_str':
        out, t = [], s[2]
        while t[0] == 'u' and t[1] == '<<':
            out.append(t[3])
            t = t[2]
        if t == ('u', 'stream') and all(x[0] in ('str', 's') or (x[0] == 'u' and x[1] in ('concat', 'cstr', 'stream_str')) for x in out):
            return plain(join_all([y for x in reversed(out) for y in parts(x)]))
        return [s]
    if s[0] == 'u' and s[1] == 'cstr':
        return parts(s[2])
    return [s]


def plain(s):
    return list(s[2:]) if s[0] == 'u' and s[1] == 'concat' else [s] if s != ('str', '') else []


def join_all(ps):
    r = ('str', '')
    for x in ps:
        r = concat(r, x)
    return r


def norm(I, s):
    """replace arbitrary pieces known to equal a literal by the literal"""
    out = ('str', '')
    for x in parts(s):
        for t, v in I.facts.items():
            if v and t[0] == 'u' and t[1] == 'streq' and x in (t[2], t[3]):
                o = t[3] if x == t[2] else t[2]
                if o[0] == 'str':
                    x = o
                    break
        out = concat(out, x)
    return out


def minlen(s):
    return sum(len(x[1]) if x[0] == 'str' else (props(x) or (0,))[0] for x in parts(s))


def streq(I, a, b):
    a, b = norm(I, a), norm(I, b)
    pa, pb = parts(a), parts(b)
    while pa and pb:
        x, y = pa[0], pb[0]
        if x == y:
            pa, pb = pa[1:], pb[1:]
            continue
        if x[0] == 'str' and y[0] == 'str':
            n = min(len(x[1]), len(y[1]))
            if x[1][:n] != y[1][:n]:
                return FALSE
            pa = ([('str', x[1][n:])] if x[1][n:] else []) + pa[1:]
            pb = ([('str', y[1][n:])] if y[1][n:] else []) + pb[1:]
            continue
        break
    while pa and pb:
        x, y = pa[-1], pb[-1]
        if x == y:
            pa, pb = pa[:-1], pb[:-1]
            continue
        if x[0] == 'str' and y[0] == 'str':
            n = min(len(x[1]), len(y[1]))
            if x[1][-n:] != y[1][-n:]:
                return FALSE
            pa = pa[:-1] + ([('str', x[1][:-n])] if x[1][:-n] else [])
            pb = pb[:-1] + ([('str', y[1][:-n])] if y[1][:-n] else [])
            continue
        break
    if not pa and not pb:
        return TRUE
    for p, q in ((pa, pb), (pb, pa)):
        if not p and any(x[0] == 'str' or (props(x) or (0,))[0] > 0 for x in q):
            return FALSE
        # p is all literal: what q cannot contain decides
        if all(x[0] == 'str' for x in p):
            lit = ''.join(x[1] for x in p)
            if minlen(join(q)) > len(lit):
                return FALSE
            if q and props(q[0]):
                if props(q[0])[0] and lit and lit[0] in props(q[0])[2]:
                    return FALSE
            allowed = [props(x)[1] if props(x) else set() for x in q if x[0] != 'str']
            lits = ''.join(x[1] for x in q if x[0] == 'str')
            for c in set(lit):
                if allowed and all(c in no for no in allowed) and lits.count(c) < lit.count(c):
                    return FALSE
            for c in set(lits):
                if lits.count(c) > lit.count(c):
                    return FALSE
    # which characters both must agree on
    x, y = join(pa), join(pb)
    if rank(y) < rank(x):
        x, y = y, x
    return ('u', 'streq', x, y)


def join(ps):
    r = ('str', '')
    for x in ps:
        r = concat(r, x)
    return r


def find_char(s, c, start=0):
    """(piece index, offset in the literal) of the first c; None if there is none; False if unknown"""
    for i, x in enumerate(parts(s)):
        if x[0] == 'str':
            j = x[1].find(c)
            if j >= 0:
                return i, j
        elif not props(x) or c not in props(x)[1]:
            return False
    return None


def cut(s, pos):
    """(before, after) when pos is a boundary between pieces or lies in a literal"""
    ps = parts(s)
    off = ZERO
    for i, x in enumerate(ps):
        d = sub(pos, off)
        if d == ZERO:
            return join(ps[:i]), join(ps[i:])
        if x[0] == 'str' and is_c(d) and 0 < d[1] < len(x[1]):
            n = int(d[1])
            return join(ps[:i] + [('str', x[1][:n])]), join([('str', x[1][n:])] + ps[i + 1:])
        off = add(off, size_of(x))
    if sub(pos, off) == ZERO:
        return s, ('str', '')
    return None


def as_char(v):
    if is_c(v):
        return chr(int(v[1]) & 255)
    if v[0] == 'str' and len(v[1]) == 1:
        return v[1]
    return None


def structured(s):
    return s[0] == 'str' or (s[0] == 'u' and s[1] in ('concat', 'cstr')) or bool(props(s))


def note_sizes(I, s):
    for x in parts(s):
        p = props(x)
        if p and p[0] > 0:
            I.facts.setdefault(eq(size_of(x), ZERO), False)
            if not any(t == lt(size_of(x), C(p[0])) for t in I.facts):
                I.facts[lt(size_of(x), C(p[0]))] = False


def str_hook(I, ref, this, args, n, h):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    s = norm(I, I.load(this, ct, quiet=True))
    if n in ('size', 'length', 'empty'):
        note_sizes(I, s)
        if n == 'empty':
            return C(0 if minlen(s) else 1) if s[0] == 'str' or minlen(s) else NotImplemented
        return size_of(s)
    if n in ('c_str', 'data') and h == 'std::basic_string':
        return ('u', 'cstr', s, ('ptr', this))
    if not structured(s):
        return NotImplemented
    if n in ('operator[]', 'at', 'front', 'back'):
        i = ZERO if n == 'front' else sub(size_of(s), ONE) if n == 'back' else I.rv(args[0], 'unsigned long')
        if n == 'back' and parts(s) and parts(s)[-1][0] == 'str':
            return value(I, C(ord(parts(s)[-1][1][-1])), 'char')
        r = cut(s, i)
        if n == 'at' and r is None:
            note_sizes(I, s)
            if not (is_c(i) and i[1] < minlen(s)):
                return NotImplemented
        if r is None:
            return NotImplemented
        rest = parts(r[1])
        if not rest:
            if n == 'at':
                models.raise_std(I, ref)
            return value(I, ZERO, 'char')
        x = rest[0]
        if x[0] == 'str':
            return value(I, C(ord(x[1][0])), 'char')
        p = props(x)
        if not p or not p[0]:
            return NotImplemented
        t = ('s', 'first(%s)' % show(x), 'i', '')
        for c in p[2]:
            I.facts[eq(t, C(ord(c)))] = False
        return value(I, t, 'char')
    if n == 'starts_with':
        p = I.rv(args[0])
        p = ('str', as_char(p)) if is_c(p) else norm(I, p)
        if p[0] != 'str':
            return NotImplemented
        lit, ps = p[1], parts(s)
        while lit:
            if not ps:
                return FALSE
            x = ps[0]
            if x[0] != 'str':
                q = props(x)
                if q and q[0] and lit[0] in q[2]:
                    return FALSE
                if q and any(c in q[1] for c in lit[:q[0]]):
                    return FALSE
                return NotImplemented
            k = min(len(lit), len(x[1]))
            if lit[:k] != x[1][:k]:
                return FALSE
            lit = lit[k:]
            ps = ([('str', x[1][k:])] if x[1][k:] else []) + ps[1:]
        return TRUE
    if n in ('find', 'find_first_of', 'contains'):
        c = as_char(norm(I, I.rv(args[0])))
        pos = I.rv(args[1], 'unsigned long') if len(args) > 1 else ZERO
        if c is None:
            return NotImplemented
        r = cut(s, pos)
        if r is None:
            return NotImplemented
        f = find_char(r[1], c)
        if f is False:
            return NotImplemented
        if n == 'contains':
            return C(0 if f is None else 1)
        if f is None:
            return NPOS
        i, j = f
        return add(add(pos, size_of(join(parts(r[1])[:i]))), C(j))
    if n in ('begin', 'cbegin'):
        return ('sit', s, ZERO)
    if n in ('end', 'cend'):
        note_sizes(I, s)
        return ('sit', s, size_of(s))
    if n in ('assign', 'append') and args:
        v = chars_of(I, args)
        if v is None:
            return NotImplemented
        I.store(this, v if n == 'assign' else concat(s, v), ct)
        return ('L', this)
    if n in ('rfind', 'find_last_of') and len(args) == 1:
        c = as_char(norm(I, I.rv(args[0])))
        if c is None:
            return NotImplemented
        ps = parts(s)
        for i in range(len(ps) - 1, -1, -1):
            if ps[i][0] == 'str':
                j = ps[i][1].rfind(c)
                if j >= 0:
                    return add(size_of(join(ps[:i])), C(j))
            elif not props(ps[i]) or c not in props(ps[i])[1]:
                return NotImplemented
        return NPOS
    if n == 'substr' or (n in ('remove_prefix', 'erase') and args):
        a = I.rv(args[0], 'unsigned long') if args else ZERO
        if args and args[0][0] != 'L' and I.rv(args[0])[0] in ('cit', 'it'):
            return NotImplemented
        b = I.rv(args[1], 'unsigned long') if len(args) > 1 else NPOS
        r = cut(s, a)
        if r is None:
            if is_c(a) and a[1] <= minlen(s) or not is_c(a):
                return NotImplemented
            models.raise_std(I, ref)
        if b == NPOS:
            mid, tail = r[1], ('str', '')
        else:
            q = cut(r[1], b)
            if q is None:
                if is_c(b) and r[1][0] == 'str':
                    q = (r[1], ('str', ''))
                else:
                    return NotImplemented
            mid, tail = q
        if n == 'substr':
            return mid
        I.store(this, tail if n == 'remove_prefix' and False else (r[1] if n == 'remove_prefix' else concat(r[0], tail)), ct)
        return ('L', this) if n == 'erase' else ('void',)
    if n == 'compare' and len(args) == 1:
        if I.branch(streq(I, s, I.rv(args[0]))):
            return ZERO
        v = I.fresh('compare', 'int')
        I.facts[eq(v, ZERO)] = False
        return v
    return NotImplemented


def chars_of(I, args):
    """the text given by a pair of iterators, a text and a range in it, a count and a character, or a list of characters"""
    xs = [I.rv(a) for a in args]
    if len(xs) == 2 and xs[0][0] == xs[1][0] == 'sit' and xs[0][1] == xs[1][1]:
        r = cut(xs[0][1], xs[1][2])
        q = cut(r[0], xs[0][2]) if r else None
        return q[1] if q else None
    if len(xs) == 3 and structured(xs[0]) and not is_c(xs[0]):
        r = cut(norm(I, xs[0]), xs[1])
        if r is None:
            return None
        if xs[2] == NPOS:
            return r[1]
        q = cut(r[1], xs[2])
        return q[0] if q else None
    if len(xs) == 2 and is_c(xs[0]) and is_c(xs[1]) and xs[0][1] < 200:
        return ('str', chr(int(xs[1][1]) & 255) * int(xs[0][1]))
    if len(xs) == 1 and xs[0][0] == 'initlist' and all(is_c(x) for x in xs[0][1]):
        return ('str', ''.join(chr(int(x[1]) & 255) for x in xs[0][1]))
    return None


def sit_op(I, op, a, b):
    if b[0] == 'sit':
        if op == '-':
            return sub(a[2], b[2])
        d = sub(a[2], b[2])
        if op in ('==', '!='):
            r = C(1) if d == ZERO else ZERO if is_c(d) else eq(a[2], b[2])
            return lnot(r) if op == '!=' else r
        x, y, neg = {'<': (a, b, 0), '>': (b, a, 0), '<=': (b, a, 1), '>=': (a, b, 1)}[op]
        r = lt(x[2], y[2])
        return lnot(r) if neg else r
    return ('sit', a[1], add(a[2], b) if op == '+' else sub(a[2], b))


def char_at(I, s, i):
    r = cut(s, i)
    if r is None or not parts(r[1]):
        return None
    x = parts(r[1])[0]
    if x[0] == 'str':
        return value(I, C(ord(x[1][0])), 'char')
    p = props(x)
    if not p or not p[0]:
        return None
    t = ('s', 'first(%s)' % show(x), 'i', '')
    for c in p[2]:
        I.facts[eq(t, C(ord(c)))] = False
    return value(I, t, 'char')


def value(I, v, t):
    q = I.new_temp(t)
    I.store(q, v, t, quiet=True)
    return ('L', q)


# ------------------------------------------------------------------ sequences
def cval(I, place, ct=''):
    v = I.load(place, ct or I.ctypes.get(place, ''), quiet=True)
    if v == EMPTY or v == ('initlist', ()):
        return ('cvec', ())
    return v


def new_cell(I, et, arg=None, node=None):
    I.nfresh += 1
    p = (('cell', I.nfresh), ())
    I.ctypes[p] = bare(et)
    if arg is not None:
        v = I.rv(arg)
        if arg[0] == 'L' and et and not I.is_struct(et):
            v = convert_to(I, arg, et)
        if head(et) in STRS:
            v = join(parts(v))
        I.store(p, v, et, quiet=True)
    return I.nfresh


def cell(i):
    return (('cell', i), ())


def elems_of(I, a, b=None):
    """places of the elements of a range given by iterators or a container; None if not exactly known"""
    if b is None:
        v = cval(I, a)
        return [cell(i) for i in v[1]] if v[0] == 'cvec' else None
    if a[0] == 'cit' and b[0] == 'cit' and a[1] == b[1]:
        v = cval(I, a[1])
        if v[0] == 'cvec':
            return [cell(i) for i in v[1][a[2]:b[2]]]
    return None


def seq_hook(I, ref, this, args, node, n, h):
    ps = ref.get('params') or []
    ct = ref.get('cls', '') if ref.get('k') == 'ctor' else I.ctypes.get(this) or ref.get('cls', '')
    et = I.elem_type(ct)
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            sp = I.as_place(args[0], ct)
            v = cval(I, sp, ct)
            if v[0] != 'cvec':
                return NotImplemented
            I.ctypes[this] = bare(ct)
            if ref['special'] == 'move':
                I.store(this, v, ct, quiet=True)
                I.store(sp, ('cvec', ()), ct, quiet=True)
            else:
                I.store(this, ('cvec', tuple(new_cell(I, et, ('L', cell(i))) for i in v[1])), ct, quiet=True)
            return ('void',)
        real = [(a, p) for a, p in zip(args, ps) if head(p) != 'std::allocator']
        I.ctypes[this] = bare(ct)
        if not real:
            I.store(this, ('cvec', ()), ct, quiet=True)
            return ('void',)
        if head(real[0][1]) == 'std::initializer_list':
            v = I.rv(real[0][0])
            if v[0] != 'initlist':
                return NotImplemented
            I.store(this, ('cvec', tuple(new_cell(I, et, x) for x in v[1])), ct, quiet=True)
            return ('void',)
        if len(real) == 2 and bare(real[0][1]) not in INTS:
            xs = crange(I, I.rv(real[0][0]), I.rv(real[1][0]))
            if xs is None:
                return NotImplemented
            I.store(this, ('cvec', tuple(new_cell(I, et, x if x[0] in ('u', 'str', 's', 'c', 'L') else ('L', x)) for x in xs)), ct, quiet=True)
            return ('void',)
        if bare(real[0][1]) in INTS:
            k = I.rv(real[0][0])
            if is_c(k) and k[1] <= 64:
                a = real[1][0] if len(real) > 1 else models.default_value(I, et) if not I.is_struct(et) else None
                if a is None:
                    return NotImplemented
                I.store(this, ('cvec', tuple(new_cell(I, et, a) for _ in range(int(k[1])))), ct, quiet=True)
                return ('void',)
        return NotImplemented
    if this is None:
        return NotImplemented
    v = cval(I, this, ct)
    if n == 'operator=' and is_copy(ref):
        sp = I.as_place(args[0], ct)
        w = cval(I, sp, ct)
        if w[0] != 'cvec':
            return NotImplemented
        if ref['special'] == 'moveassign':
            I.store(this, w, ct)
            if sp != this:
                I.store(sp, ('cvec', ()), ct, quiet=True)
        else:
            I.store(this, ('cvec', tuple(new_cell(I, et, ('L', cell(i))) for i in w[1])), ct)
        return ('L', this)
    if v[0] != 'cvec':
        return NotImplemented
    ids = v[1]

    def put(new):
        I.store(this, ('cvec', tuple(new)), ct)
    if n == 'size':
        return C(len(ids))
    if n == 'empty':
        return C(0 if ids else 1)
    if n in ('push_back', 'emplace_back'):
        if len(args) != 1:
            q = models.make_object(I, et, args, ref, node)
            i = new_cell(I, et, ('L', q))
        else:
            i = new_cell(I, et, args[0])
            models.consume(I, ref, args)
        put(ids + (i,))
        return ('L', cell(i)) if n == 'emplace_back' else ('void',)
    if n in ('push_front', 'emplace_front'):
        if len(args) != 1:
            i = new_cell(I, et, ('L', models.make_object(I, et, args, ref, node)))
        else:
            i = new_cell(I, et, args[0])
            models.consume(I, ref, args)
        put((i,) + ids)
        return ('L', cell(i)) if n == 'emplace_front' else ('void',)
    if n in ('operator[]', 'at', 'front', 'back'):
        i = ZERO if n == 'front' else C(len(ids) - 1) if n == 'back' else I.rv(args[0], 'unsigned long')
        if not is_c(i):
            raise AnalysisBroken('index %s of a concrete sequence' % show(i))
        if not 0 <= i[1] < len(ids):
            if n == 'at':
                models.raise_std(I, ref)
            I.ev_add('outside', index=i, size=C(len(ids)))
            from absint import PathEnd
            raise PathEnd('outside')
        return ('L', cell(ids[int(i[1])]))
    if n in ('begin', 'cbegin'):
        return ('cit', this, 0)
    if n in ('end', 'cend'):
        return ('cit', this, len(ids))
    if n == 'pop_back':
        put(ids[:-1])
        return ('void',)
    if n == 'pop_front':
        put(ids[1:])
        return ('void',)
    if n == 'clear':
        put(())
        return ('void',)
    if n in ('reserve', 'shrink_to_fit'):
        return ('void',)
    if n == 'erase':
        a = [I.rv(x) for x in args]
        if all(x[0] == 'cit' for x in a):
            e = a[1][2] if len(a) > 1 else a[0][2] + 1
            put(ids[:a[0][2]] + ids[e:])
            return a[0]
    if n == 'insert' and len(args) == 2 and I.rv(args[0])[0] == 'cit':
        k = I.rv(args[0])[2]
        put(ids[:k] + (new_cell(I, et, args[1]),) + ids[k:])
        return ('cit', this, k)
    return NotImplemented


def crange(I, a, b):
    xs = elems_of(I, a, b) if a[0] == 'cit' else None
    if xs is not None:
        return xs
    def arr(v):
        if v[0] == 'initlist':
            return v, 0
        if v[0] == 'u' and v[1] == 'ptr+' and v[2][0] == 'initlist' and is_c(v[3]):
            return v[2], int(v[3][1])
        return None, 0
    (l, i), (m, j) = arr(a), arr(b)
    if l is not None and l == m:
        if j < i:
            I.ev_add('outside', index=C(j), size=C(len(l[1])))
            from absint import PathEnd
            raise PathEnd('outside')
        return [x for x in l[1][i:j]]
    # elements of an array
    if a[0] == 'ptr' and b[0] == 'ptr':
        pa, pb = a[1], b[1]
        ia, ib = array_index(pa), array_index(pb)
        if ia and ib and ia[0] == ib[0]:
            return [ia[2](k) for k in range(ia[1], ib[1])]
    return None


def array_index(p):
    if p[1] and isinstance(p[1][-1], str) and re.match(r'^\[\d+\]$', p[1][-1]):
        base = p[1][:-1]
        return (p[0], base), int(p[1][-1][1:-1]), lambda k: (p[0], base + ('[%d]' % k,))
    if p[0][0] == 'elem' and p[0][2][0] == 'idx' and is_c(p[0][2][1]) and not p[1]:
        return (p[0][1], p[0][2][2:]), int(p[0][2][1][1]), lambda k: (('elem', p[0][1], ('idx', C(k)) + p[0][2][2:]), ())
    return None


def iter_hook(I, ref, this, args, n):
    if this is None or ref.get('k') == 'ctor':
        return NotImplemented
    v = I.load(this, I.ctypes.get(this, ''), quiet=True)
    if v[0] == 'sit':
        if n == 'operator*':
            r = char_at(I, v[1], v[2])
            return NotImplemented if r is None else r
        if n == 'operator[]':
            r = char_at(I, v[1], add(v[2], I.rv(args[0], 'long')))
            return NotImplemented if r is None else r
        if n in ('operator++', 'operator--', 'operator+=', 'operator-='):
            k = I.rv(args[0], 'long') if n[-1] == '=' else ONE
            I.store(this, sit_op(I, n[8], v, k), ref.get('cls', ''), quiet=True)
            return v if args and n[-1] != '=' else ('L', this)
        if n in ('operator+', 'operator-', 'operator==') and args:
            return sit_op(I, n[8:], v, I.rv(args[0]))
        return NotImplemented
    if v[0] != 'cit':
        return NotImplemented

    def at(k):
        w = cval(I, v[1])
        if w[0] != 'cvec' or not 0 <= k < len(w[1]):
            I.ev_add('outside', index=C(k), size=C(len(w[1]) if w[0] == 'cvec' else 0))
            from absint import PathEnd
            raise PathEnd('outside')
        return cell(w[1][k])

    def num(a):
        x = I.rv(a, 'long')
        if not is_c(x):
            raise AnalysisBroken('iterator moved by ' + show(x))
        return int(x[1])
    if n == 'operator*':
        return ('L', at(v[2]))
    if n == 'operator->':
        return ('ptr', at(v[2]))
    if n in ('operator++', 'operator--'):
        I.store(this, ('cit', v[1], v[2] + (1 if n == 'operator++' else -1)), ref.get('cls', ''), quiet=True)
        return v if args else ('L', this)
    if n in ('operator+', 'operator-') and args:
        x = I.rv(args[0])
        if x[0] == 'cit':
            return C(v[2] - x[2])
        return ('cit', v[1], v[2] + (num(args[0]) if n == 'operator+' else -num(args[0])))
    if n in ('operator+=', 'operator-='):
        I.store(this, ('cit', v[1], v[2] + (num(args[0]) if n == 'operator+=' else -num(args[0]))), ref.get('cls', ''), quiet=True)
        return ('L', this)
    if n == 'operator[]':
        return ('L', at(v[2] + num(args[0])))
    if n == 'operator==':
        x = I.rv(args[0])
        return C(x == v) if x[0] == 'cit' else NotImplemented
    if n == 'base':
        return v
    return NotImplemented


ALGS = {'find_if': 'find', 'find_if_not': 'find', 'any_of': 'any', 'all_of': 'all', 'none_of': 'none', 'count_if': 'count', 'for_each': 'each', 'find': 'value', 'count': 'value'}


def alg_hook(I, ref, args, node, what):
    ps = ref.get('params') or []
    a0 = args[0]
    if a0[0] == 'L' and head(I.ctypes.get(a0[1], '')) in STRS and what == 'find' and len(args) == 2 and 'ranges' in ref.get('sq', ''):
        s = norm(I, I.rv(a0))
        args = [('sit', s, ZERO), ('sit', s, size_of(s))] + list(args[1:])
        a0 = args[0]
    if a0[0] == 'sit' or a0[0] == 'L' and I.rv(a0)[0] == 'sit':
        b, e = I.rv(a0), I.rv(args[1])
        if what != 'find' or e[0] != 'sit':
            return NotImplemented
        c = as_char(I.rv(args[2], 'char'))
        r = cut(b[1], e[2])
        q = cut(r[0], b[2]) if r and c else None
        f = find_char(q[1], c) if q else False
        if f is False:
            return NotImplemented
        return e if f is None else ('sit', b[1], add(add(b[2], size_of(join(parts(q[1])[:f[0]]))), C(f[1])))
    it0 = I.rv(a0) if not (a0[0] == 'L' and head(I.ctypes.get(a0[1], '')) in CSEQ) and a0[0] != 'obj' else None
    if it0 is None:
        p = I.as_place(a0)
        xs, rest, base, at0 = elems_of(I, p), args[1:], p, 0
    elif it0[0] == 'cit':
        it1 = I.rv(args[1])
        xs, rest, base, at0 = elems_of(I, it0, it1), args[2:], it0[1], it0[2]
    else:
        return NotImplemented
    if xs is None:
        return NotImplemented
    kind = ALGS[what]
    if kind == 'value':
        x = rest[0]

        def pred(e):
            a, b = I.term_of(('L', e)), I.term_of(I.rv(x))
            return I.branch(streq(I, a, b) if head(I.ctypes.get(e, '')) in STRS else eq(a, b))
    else:
        f = I.rv(rest[0])

        def pred(e):
            return I.truth(I.call_value(f, [('L', e)], {'t': 'bool'}), 'bool')
    if kind == 'each':
        for e in xs:
            I.call_value(f, [('L', e)], {'t': 'void'})
        return f
    if what in ('count', 'count_if'):
        return C(sum(1 for e in xs if pred(e)))
    inv = what == 'find_if_not'
    for k, e in enumerate(xs):
        r = pred(e)
        if kind in ('find', 'value') and r != inv:
            return ('cit', base, at0 + k)
        if kind == 'any' and r:
            return TRUE
        if kind == 'none' and r:
            return FALSE
        if kind == 'all' and not r:
            return FALSE
    if kind in ('find', 'value'):
        return ('cit', base, at0 + len(xs))
    return C(0 if kind == 'any' else 1)


# ------------------------------------------------------------------ string streams
def stream_hook(I, ref, this, args, node, n, h):
    if ref.get('k') == 'ctor' and not is_copy(ref) and this is not None:
        if h == 'std::basic_istringstream' or (h == 'std::basic_stringstream' and args):
            ps = ref.get('params') or []
            s = norm(I, I.rv(args[0])) if args and head(ps[0]) in STRS | {'char'} else ('str', '')
            I.ctypes[this] = bare(ref.get('cls', ''))
            I.mem[this] = ('cstream', s, FALSE, FALSE)
            return ('void',)
        return NotImplemented
    if this is None:
        return NotImplemented
    v = I.mem.get(this)
    if v is None or v[0] != 'cstream':
        return NotImplemented
    if n in ('fail', 'operator!'):
        return v[3]
    if n == 'operator bool' or ref.get('k') == 'conv':
        return lnot(v[3])
    if n == 'eof':
        return v[2]
    if n == 'good':
        if v[3] == FALSE:
            return lnot(v[2])
    if n == 'operator>>':
        return extract(I, this, v, args)
    return NotImplemented


def extract(I, this, v, args):
    """one formatted extraction: succeeds or not, and may or may not have read everything"""
    a = args[0]
    if a[0] != 'L':
        return NotImplemented
    t = I.ctypes.get(a[1], '')
    if v[3] == TRUE or (v[1][0] == 'str' and not v[1][1].strip()):
        I.mem[this] = ('cstream', v[1], v[2], TRUE)
        return ('L', this)
    ok = ('u', 'extracts', ('str', bare(t)), v[1])
    if I.branch(ok):
        I.store(a[1], I.sym('parsed<%s>(%s)' % (bare(t), show(v[1])), t) if not I.is_struct(t) else ('s', 'parsed<%s>(%s)' % (bare(t), show(v[1]))), t)
        all_ = ('u', 'extracts_all', ('str', bare(t)), v[1])
        if I.branch(all_):
            I.mem[this] = ('cstream', ('str', ''), TRUE, FALSE)
        else:
            I.mem[this] = ('cstream', ('s', 'rest(%s)' % show(v[1])), FALSE, FALSE)
    else:
        I.store(a[1], I.sym('unparsed<%s>(%s)' % (bare(t), show(v[1])), t), t)
        I.mem[this] = ('cstream', v[1], I.fresh('eof'), TRUE)
    return ('L', this)


def getline(I, args):
    p = I.as_place(args[0])
    v = I.mem.get(p)
    if v is None or v[0] != 'cstream':
        return NotImplemented
    q = I.as_place(args[1])
    d = as_char(I.rv(args[2])) if len(args) > 2 else '\n'
    st = I.ctypes.get(q, '')
    if v[3] != FALSE or v[2] == TRUE:
        I.mem[p] = v[:3] + (TRUE,)
        return ('L', p)
    rest = norm(I, v[1])
    if rest == ('str', ''):
        I.store(q, rest, st)
        I.mem[p] = ('cstream', rest, TRUE, TRUE)
        return ('L', p)
    f = find_char(rest, d) if d else False
    if f is False:
        raise AnalysisBroken('getline on an unknown text')
    if f is None:
        I.store(q, rest, st)
        I.mem[p] = ('cstream', ('str', ''), TRUE, FALSE)
        return ('L', p)
    ps = parts(rest)
    i, j = f
    I.store(q, join(ps[:i] + [('str', ps[i][1][:j])]), st)
    I.mem[p] = ('cstream', join([('str', ps[i][1][j + 1:])] + ps[i + 1:]), FALSE, FALSE)
    return ('L', p)


def alive(I, place, depth=0):
    """does the object at `place` still exist, seen from the current functions?"""
    root = I.base_root(place)
    if root[0] in ('param', 'this', 'global', 'static'):
        return True
    if root[0] == 'cell':
        return any(v[0] == 'cvec' and root[1] in v[1] and alive(I, p, depth + 1) for p, v in list(I.mem.items()) if depth < 5)
    if root[0] == 'heap':
        return any(v == ('ptr', (root, ())) and alive(I, p, depth + 1) for p, v in list(I.mem.items()) if depth < 5)
    if root[0] == 'local':
        return any(p[0] == root for f in I.frames for p in f.env.values())
    return False


# ------------------------------------------------------------------ console output
def written(I, stream):
    r = ('str', '')
    for e in I.events:
        if e['kind'] == 'output' and I.base_root(e['stream'])[1:2] == (stream,):
            v = e['val']
            r = concat(r, norm(I, v) if v[0] in ('str', 's') or v[0] == 'u' else ('s', 'formatted(%s)' % show(v)))
    return r


def message(I, v):
    if v[0] in ('obj', 'L'):
        v = I.rv(v) if v[0] == 'L' else I.mem.get(v[1] if not isinstance(v[1], str) else v[2], v)
    if v[0] == 'u' and v[1].startswith('ctor:std::'):
        for x in v[2:]:
            if x[0] in ('str', 's') or x[0] == 'u':
                return x
    return ('s', 'what')


def occurs(I, text, piece):
    """does the text contain the piece, whatever the arbitrary pieces are?"""
    a, b = parts(norm(I, text)), parts(norm(I, piece))
    if not b:
        return 1
    for i in range(len(a) - len(b) + 1):
        w = a[i:i + len(b)]
        if len(b) == 1:
            ok = w[0] == b[0] or (w[0][0] == b[0][0] == 'str' and b[0][1] in w[0][1])
        else:
            ok = (w[1:-1] == b[1:-1]
                  and (w[0] == b[0] or (w[0][0] == b[0][0] == 'str' and w[0][1].endswith(b[0][1])))
                  and (w[-1] == b[-1] or (w[-1][0] == b[-1][0] == 'str' and w[-1][1].startswith(b[-1][1]))))
        if ok:
            return 1
    return 0


# ------------------------------------------------------------------ the hook
def hook(I, ref, this, args, node):
    n = ref.get('n', '')
    h = class_head(ref)
    sq = ref.get('sq', '')
    if sq == 'text' and this is None:
        xs = [I.rv(a) for a in args]
        return atom(xs[0][1], 1, xs[1][1] if len(xs) > 1 and xs[1][0] == 'str' else '', xs[2][1] if len(xs) > 2 and xs[2][0] == 'str' else '')
    if sq in ('getenv', 'std::getenv'):
        return ('s', 'getenv(%s)' % show(join(parts(I.rv(args[0])))))
    if sq == 'alive' and this is None:
        v = I.rv(args[0])
        if v[0] == 'u' and v[1] == 'cstr' and len(v) > 3:
            return C(1 if alive(I, v[3][1]) else 0)
        return C(1 if v[0] in ('str', 's') else 0)
    if this is None and sq in ('printed', 'complained'):
        return written(I, 'std::cout' if sq == 'printed' else 'std::cerr')
    if this is None and sq == 'contains':
        return C(occurs(I, I.rv(args[0]), I.rv(args[1])))
    if n == 'what' and sq.startswith('std::') and I.catching:
        v = I.catching[-1].v
        return message(I, v)
    if h in CSEQ:
        return seq_hook(I, ref, this, args, node, n, h)
    if h in STRS and this is not None and ref.get('k') == 'ctor' and not is_copy(ref) and args:
        real = [a for a, p in zip(args, ref.get('params') or []) if head(p) != 'std::allocator']
        v = chars_of(I, real) if len(real) > 1 or real and I.rv(real[0])[0] == 'initlist' else None
        if v is not None:
            I.store(this, v, bare(ref.get('cls', '')))
            I.ctypes[this] = bare(ref.get('cls', ''))
            return ('void',)
    if h in STRS and this is not None and ref.get('k') != 'ctor':
        return str_hook(I, ref, this, args, n, h)
    if h in ITERS:
        return iter_hook(I, ref, this, args, n)
    if h.startswith('std::basic_') and 'stream' in h or h in ('std::basic_ios', 'std::ios_base'):
        return stream_hook(I, ref, this, args, node, n, h)
    if h == 'std::unique_ptr' and False:
        return NotImplemented
    if n.startswith('operator') and this is None and len(args) == 2:
        ps = ref.get('params') or ['', '']
        op = n[8:].strip()
        if op in ('==', '!=') and (head(ps[0]) in STRS or head(ps[1]) in STRS) and sq.startswith('std::'):
            r = streq(I, I.rv(args[0]), I.rv(args[1]))
            return lnot(r) if op == '!=' else r
        a = args[0] if args[0][0] == 'obj' else I.rv(args[0])
        if op in ('==', '!=') and head(ps[0]) == head(ps[1]) == 'std::filesystem::path' and a == I.rv(args[1]):
            return C(op == '==')
        if a[0] == 'sit' and op in ('==', '!=', '-', '+', '<', '>', '<=', '>='):
            return sit_op(I, op, a, I.rv(args[1]))
        if a[0] == 'cit':
            b = I.rv(args[1])
            if b[0] == 'cit':
                if op == '==':
                    return C(a == b)
                if op == '!=':
                    return C(a != b)
                if op == '-':
                    return C(a[2] - b[2])
                if op in ('<', '>', '<=', '>='):
                    return C({'<': a[2] < b[2], '>': a[2] > b[2], '<=': a[2] <= b[2], '>=': a[2] >= b[2]}[op])
        if op == '>>' and args[0][0] == 'L':
            v = I.mem.get(args[0][1])
            if v is not None and v[0] == 'cstream':
                return extract(I, args[0][1], v, args[1:])
    if sq == 'std::getline':
        return getline(I, args)
    m = re.match(r'std::(?:ranges::)?(?:__)?(\w+?)(?:_fn::operator\(\))?$', sq)
    if m and m.group(1) in ALGS and args:
        return alg_hook(I, ref, args, node, m.group(1))
    if sq in ('std::next', 'std::prev', 'std::advance', 'std::distance') and args:
        a = I.rv(args[0])
        if a[0] == 'cit':
            if n == 'distance':
                return C(I.rv(args[1])[2] - a[2])
            k = I.rv(args[1], 'long') if len(args) > 1 else ONE
            if is_c(k):
                r = ('cit', a[1], a[2] + int(k[1]) * (-1 if n == 'prev' else 1))
                if n == 'advance':
                    I.store(I.as_place(args[0]), r, '', quiet=True)
                    return ('void',)
                return r
    if sq in ('std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stof', 'std::stod', 'std::stold'):
        s = norm(I, T(I, args[0]))
        if not I.branch(('u', n + '_ok', s)):
            models.raise_std(I, ref)
        if len(args) > 1:
            q = I.rv(args[1])
            if q[0] == 'ptr':
                I.store(q[1], ('s', 'consumed(%s)' % show(s), 'i', 'nn'), 'unsigned long')
        return I.sym('%s(%s)' % (n, show(s)), ref.get('ret', 'int'))
    return NotImplemented

"""Value-number terms: immutable tuples, with a polynomial normal form for arithmetic and a
small convex-polyhedra emptiness test (Fourier-Motzkin) used as a relational abstract domain."""
from fractions import Fraction as Fr
from functools import lru_cache

_order = {}


def rank(t):
    r = _order.get(t)
    if r is None:
        r = len(_order)
        _order[t] = r
    return r


def C(x):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, Fr) and x.denominator == 1:
        x = int(x)
    return ('c', x)


TRUE, FALSE, ZERO, ONE = C(1), C(0), C(0), C(1)
NULL = ('null',)


def is_c(t):
    return t[0] == 'c'


def to_poly(t):
    """term -> dict mono -> coef"""
    if t[0] == 'c' and isinstance(t[1], (int, Fr)):
        return {(): Fr(t[1])} if t[1] != 0 else {}
    if t[0] == 'poly':
        return dict(t[1])
    return {((t, 1),): Fr(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return C(0)
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return C(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return ('poly', tuple(sorted(p.items(), key=lambda kv: tuple((rank(a), e) for a, e in kv[0]))))


def add(a, b, sb=1):
    p = to_poly(a)
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fr(0)) + sb * c
    return from_poly(p)


def sub(a, b):
    return add(a, b, -1)


def mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    r = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            d = dict(m1)
            for at, e in m2:
                d[at] = d.get(at, 0) + e
                if d[at] == 0:
                    del d[at]
            m = tuple(sorted(d.items(), key=lambda ae: rank(ae[0])))
            r[m] = r.get(m, Fr(0)) + c1 * c2
    return from_poly(r)


def neg(a):
    return mul(C(-1), a)


def numeric(t):
    return t[0] in ('poly',) or (t[0] == 'c' and isinstance(t[1], (int, Fr)))


def div_real(a, b):
    if is_c(b) and b[1] == 0:
        return mul(a, ('u', 'one over zero'))
    if is_c(b) and isinstance(b[1], (int, Fr)) and b[1] != 0:
        return mul(a, C(Fr(1) / Fr(b[1])))
    pb = to_poly(b)
    if len(pb) == 1:
        (m, c), = pb.items()
        inv = from_poly({tuple((at, -e) for at, e in m): Fr(1) / c})
        return mul(a, inv)
    # one form for b and its multiples
    pn = _norm_sign(pb)
    items = sorted(pn.items(), key=lambda kv: tuple((rank(x), e) for x, e in kv[0]))
    lead = next((c for m, c in items if m != ()), items[0][1])
    if lead < 0:
        pn = {m: -c for m, c in pn.items()}
    m0 = next(iter(pn))
    return mul(mul(a, C(pn[m0] / pb[m0])), ('inv', from_poly(pn)))


def _clear_inv(facts):
    """facts with 1/D: multiplied by D, for D > 0 and for D < 0 (division by zero excluded); None if there are none"""
    D = None
    for t, v in facts:
        while t[0] == 'not':
            t = t[1]
        if t[0] in ('lt0', 'eq0'):
            for m, c in to_poly(t[1]).items():
                for a, e in m:
                    if a[0] == 'inv' and e > 0 and D is None:
                        D = a
    if D is None:
        return None
    d = D[1]

    def clear(p):
        k = max([dict(m).get(D, 0) for m in p] + [0])
        r = ZERO
        for m, c in p.items():
            j = dict(m).get(D, 0)
            q = from_poly({tuple((a, e) for a, e in m if a != D): c})
            for _ in range(k - j):
                q = mul(q, d)
            r = add(r, q)
        return r, k
    out = []
    for sign in (1, -1):
        fs = [(lt(ZERO, d), True) if sign > 0 else (lt(d, ZERO), True)]
        for t, v in facts:
            while t[0] == 'not':
                t, v = t[1], not v
            if t[0] in ('lt0', 'eq0'):
                q, k = clear(to_poly(t[1]))
                if t[0] == 'eq0':
                    fs.append((eq(q, ZERO), v))
                else:
                    if k % 2 and sign < 0:
                        q = neg(q)
                    fs.append((lt(q, ZERO), v))
            else:
                fs.append((t, v))
        out.append(fs)
    return out


def floor_t(t):
    """floor of a real term"""
    if is_c(t) and isinstance(t[1], (int, Fr)):
        return C(t[1].__floor__() if isinstance(t[1], Fr) else t[1])
    p = to_poly(t)
    # split off integer constant part
    k = p.get((), Fr(0))
    fl = k.__floor__()
    if fl:
        p = dict(p)
        p[()] = k - fl
        if p[()] == 0:
            del p[()]
    t2 = from_poly(p)
    if is_integral(t2):
        return add(t2, C(fl))
    if len(p) == 1:         # floor(floor(x) / n) is floor(x / n)
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'floor' and c.numerator == 1:
            return add(floor_t(mul(m[0][0][1], C(c))), C(fl))
    _roundings[:] = [1]
    return add(('floor', t2), C(fl))


def canon_round(t, negative):
    """truncations written as roundings down, by the sign of what is truncated (negative(q) decides it); whole parts taken out"""
    if t[0] not in ('poly', 'floor', 'trunc'):
        return t
    out = ZERO
    for m, c in to_poly(t).items():
        r = C(c)
        for a, e in m:
            if a[0] in ('trunc', 'floor'):
                q = canon_round(a[1], negative)
                whole = from_poly({k: v for k, v in to_poly(q).items() if k and v.denominator == 1 and all(atom_integral(x) for x, _ in k)})
                rest = sub(q, whole)
                if a[0] == 'trunc' and negative(q):
                    a = sub(whole, floor_t(neg(rest)))
                else:
                    a = add(whole, floor_t(rest))
            for _ in range(e):
                r = mul(r, a)
        out = add(out, r)
    return out


def trunc_t(t):
    if is_c(t) and isinstance(t[1], (int, Fr)):
        return C(int(t[1]))
    if is_integral(t):
        return t
    _roundings[:] = [1]
    p = to_poly(t)
    if len(p) == 1:         # trunc(trunc(x) / n) is trunc(x / n)
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0][0] == 'trunc' and c.numerator == 1:
            return trunc_t(mul(m[0][0][1], C(c)))
    return ('trunc', t)


INT_HEADS = {'floor', 'trunc', 'size'}


def atom_integral(a):
    if a[0] in INT_HEADS:
        return True
    if a[0] == 's':
        return len(a) > 2 and a[2] in ('i', 'int')
    if a[0] == 'u' and len(a) > 1 and a[1] in ('mod',):
        return all(is_integral(x) for x in a[2:])
    return False


def is_integral(t):
    for m, c in to_poly(t).items():
        if c.denominator != 1:
            return False
        for at, e in m:
            if e < 0 or not atom_integral(at):
                return False
    return True


def _norm_sign(p):
    """scale poly by a positive factor so the coefs are coprime integers"""
    from math import gcd
    den = 1
    for c in p.values():
        den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for c in p.values():
        g = gcd(g, abs(int(c * den)))
    if g == 0:
        return p
    return {m: c * den / g for m, c in p.items()}


def lt(a, b):
    """a < b"""
    d = sub(a, b)
    if is_c(d) and isinstance(d[1], (int, Fr)):
        return C(d[1] < 0)
    p = _norm_sign(to_poly(d))
    return ('lt0', from_poly(p))


def le(a, b):
    return lnot(lt(b, a))


def eq(a, b):
    if a == b:
        return TRUE
    if (a[0] in ('c',) and b[0] == 'c') or (a[0] == 'str' and b[0] == 'str'):
        return C(a[1] == b[1])
    if NULL in (a, b):
        o = b if a == NULL else a
        if o[0] in ('ptr', 'closure', 'fnptr', 'bind', 'memfn', 'guard', 'thread'):
            return FALSE
    if a[0] == 'ptr' and b[0] == 'ptr':
        if a[1][0][0] in ('local', 'heap', 'this') and b[1][0][0] in ('local', 'heap', 'this'):
            return C(a == b)
    if a[0] == 'bool' or b[0] == 'bool':
        pass
    if _boolish(a) and is_c(b) and b[1] in (0, 1):
        return a if b[1] == 1 else lnot(a)
    if _boolish(b) and is_c(a) and a[1] in (0, 1):
        return b if a[1] == 1 else lnot(b)
    if nonnum(a) or nonnum(b):
        x, y = sorted((a, b), key=rank)
        return ('eq', x, y)
    p = _norm_sign(to_poly(sub(a, b)))
    if not p:
        return TRUE
    items = sorted(p.items(), key=lambda kv: tuple((rank(x), e) for x, e in kv[0]))
    lead = next((c for m, c in items if m != ()), items[0][1])
    if lead < 0:
        p = {m: -c for m, c in p.items()}
    if set(p) == {()}:
        return C(p[()] == 0)
    return ('eq0', from_poly(p))


def nonnum(t):
    return t[0] in ('str', 'ptr', 'null', 'closure', 'fnptr', 'bind', 'memfn', 'obj', 'it', 'guard', 'thread', 'opq', 'initlist', 'cvec', 'cit', 'cstream')


def _boolish(t):
    return t[0] in ('lt0', 'eq0', 'eq', 'not')


def lnot(t):
    if is_c(t):
        return C(0 if t[1] else 1)
    if t[0] == 'not':
        return t[1]
    return ('not', t)


def conj_literals(facts):
    for t, v in facts.items() if isinstance(facts, dict) else facts:
        yield t, v


# ---- polyhedra emptiness (Fourier-Motzkin on linear forms; monomials are dimensions) ----

def _lin(t):
    return to_poly(t)


def feasible(facts, ints=False, limit=4000):
    """facts: iterable of (term, bool). Decide emptiness of the polyhedron of the numeric literals.
    True means 'may be feasible'. With ints=True strict inequalities between integral forms are tightened."""
    facts = list(facts)
    cl = _clear_inv(facts)
    if cl is not None:
        return any(feasible(f, ints, limit) for f in cl)
    if _roundings:
        n = len(facts)
        atoms = _rounding_atoms(facts)
        for a in atoms:
            y = a[1]
            if a[0] == 'floor':
                facts += [(le(a, y), True), (lt(y, add(a, ONE)), True)]
            else:
                facts += [(lt(a, add(y, ONE)), True), (lt(sub(y, ONE), a), True)]
        tr = [a for a in atoms if a[0] == 'trunc']
        if tr and len(tr) <= 6:
            return _split_trunc(facts, tr, 0, ints, limit)
    return _feasible(facts, ints, limit)


# rounding atoms exist at all
_roundings = []


def _rounding_atoms(facts):
    out = []

    def rec(t):
        if not isinstance(t, tuple) or not t:
            return
        h = t[0]
        if h in ('floor', 'trunc') and len(t) == 2:
            if t not in out:
                rec(t[1])
                if t not in out:
                    out.append(t)
            return
        if h == 'poly':
            for m, c in t[1]:
                for a, e in m:
                    rec(a)
        elif h in ('not', 'lt0', 'eq0', 'nonneg'):
            rec(t[1])
    for t, v in facts:
        rec(t)
    return out


@lru_cache(100000)
def _depth(m):
    """nesting of roundings in a monomial: eliminated from the inside, so that bounds of the outer ones can be tightened"""
    d = 0
    for a, e in m:
        if a[0] in ('floor', 'trunc'):
            d = max(d, 1 + max((_depth(k) for k in to_poly(a[1])), default=0))
    return d


def _split_trunc(facts, tr, i, ints, limit):
    if not _feasible(facts, ints, limit):
        return False
    if i == len(tr):
        return True
    a, y = tr[i], tr[i][1]
    return (_split_trunc(facts + [(le(ZERO, y), True), (le(a, y), True), (le(ZERO, a), True)], tr, i + 1, ints, limit)
            or _split_trunc(facts + [(lt(y, ZERO), True), (le(y, a), True), (le(a, ZERO), True)], tr, i + 1, ints, limit))


def _feasible(facts, ints, limit):
    ineqs = []  # list of (dict, strict) meaning  p <= 0 or p < 0
    eqs = []
    neqs = []
    for t, v in facts:
        while t[0] == 'not':
            t, v = t[1], not v
        if t[0] == 'lt0':
            p = _lin(t[1])
            if v:
                ineqs.append((p, True))
            else:
                ineqs.append(({m: -c for m, c in p.items()}, False))
        elif t[0] == 'eq0':
            if v:
                eqs.append(_lin(t[1]))
            else:
                neqs.append(_lin(t[1]))
        elif t[0] == 'c':
            if bool(t[1]) != v:
                return False
        elif t[0] == 'nonneg':
            p = _lin(t[1])
            if v:
                ineqs.append(({m: -c for m, c in p.items()}, False))
    # sizes and squares are non-negative
    mons = set()
    for p, _ in ineqs:
        mons.update(p)
    for p in eqs + neqs:
        mons.update(p)
    for m in mons:
        if len(m) == 1 and ((m[0][0][0] in ('size', 'len') and m[0][1] == 1) or m[0][1] % 2 == 0):
            ineqs.append(({m: Fr(-1)}, False))
        elif len(m) >= 1 and all((a[0] == 's' and len(a) > 3 and a[3] == 'nn') or e % 2 == 0 or a[0] in ('size', 'sqrt', 'abs') for a, e in m):
            ineqs.append(({m: Fr(-1)}, False))

    def solve(ineqs, eqs):
        ineqs = [(dict(p), s) for p, s in ineqs]
        eqs = [dict(p) for p in eqs]
        # eliminate equalities
        while eqs:
            p = eqs.pop()
            p = {m: c for m, c in p.items() if c != 0}
            var = next((m for m in p if m != ()), None)
            if var is None:
                if p.get((), 0) != 0:
                    return False
                continue
            cv = p[var]
            def subst(q):
                if var not in q:
                    return q
                k = q[var] / cv
                r = dict(q)
                for m, c in p.items():
                    r[m] = r.get(m, Fr(0)) - k * c
                return {m: c for m, c in r.items() if c != 0}
            eqs = [subst(q) for q in eqs]
            ineqs = [(subst(q), s) for q, s in ineqs]
        def tight(p, s):
            if s and ints and p and all(c.denominator == 1 for c in p.values()) and all(all(e > 0 and atom_integral(a) for a, e in m) for m in p):
                p = dict(p)
                p[()] = p.get((), Fr(0)) + 1
                s = False
            if ints and not s and len(p) > 1:
                from math import gcd
                g = 0
                for m, c in p.items():
                    if m == ():
                        continue
                    if c.denominator != 1 or not all(e > 0 and atom_integral(a) for a, e in m):
                        g = 0
                        break
                    g = gcd(g, abs(c.numerator))
                if g > 1:
                    # integral combination: the bound is rounded
                    p = {m: c / g for m, c in p.items() if m != ()} | {(): -Fr((-p.get((), Fr(0)) / g).__floor__())}
            return p, s
        ineqs = [tight(p, s) for p, s in ineqs]
        n = 0
        while True:
            cur = []
            seen = set()
            for p, s in ineqs:
                p = {m: c for m, c in p.items() if c != 0}
                if not p or set(p) == {()}:
                    k = p.get((), Fr(0))
                    if k > 0 or (k == 0 and s):
                        return False
                    continue
                p = _norm_sign(p)
                key = (frozenset(p.items()), s)
                if key in seen:
                    continue
                seen.add(key)
                cur.append((p, s))
            ineqs = cur
            if not ineqs:
                return True
            counts = {}
            for p, s in ineqs:
                for m, c in p.items():
                    if m == ():
                        continue
                    a = counts.setdefault(m, [0, 0])
                    a[0 if c > 0 else 1] += 1
            var = min(counts, key=lambda m: (_depth(m), counts[m][0] * counts[m][1]) if _roundings else counts[m][0] * counts[m][1])
            pos = [(p, s) for p, s in ineqs if p.get(var, 0) > 0]
            ng = [(p, s) for p, s in ineqs if p.get(var, 0) < 0]
            rest = [(p, s) for p, s in ineqs if var not in p]
            for p, s in pos:
                for q, s2 in ng:
                    n += 1
                    if n > limit:
                        return True
                    a, b = p[var], -q[var]
                    r = {}
                    for m, c in p.items():
                        r[m] = r.get(m, Fr(0)) + c * b
                    for m, c in q.items():
                        r[m] = r.get(m, Fr(0)) + c * a
                    r.pop(var, None)
                    rest.append(tight({m: c for m, c in r.items() if c != 0}, s or s2))
            ineqs = rest

    def rec(i, ineqs):
        if i == len(neqs):
            return solve(ineqs, eqs)
        if not solve(ineqs, eqs):
            return False
        p = neqs[i]
        if not p or set(p) == {()}:
            if p.get((), 0) == 0:
                return False
            return rec(i + 1, ineqs)
        return rec(i + 1, ineqs + [(p, True)]) or rec(i + 1, ineqs + [({m: -c for m, c in p.items()}, True)])
    if not solve(ineqs, eqs):
        return False
    return rec(0, ineqs)


def show(t):
    if not isinstance(t, tuple) or not t:
        return str(t)
    h = t[0]
    if h == 'c':
        return str(t[1])
    if h == 'str':
        return repr(t[1])
    if h == 's':
        return str(t[1])
    if h == 'poly':
        out = []
        for m, c in t[1]:
            ms = '*'.join(show(a) + ('' if e == 1 else '^%s' % e) for a, e in m)
            if not ms:
                out.append(str(c))
            elif c == 1:
                out.append(ms)
            elif c == -1:
                out.append('-' + ms)
            else:
                out.append('%s*%s' % (c, ms))
        return '(' + ' + '.join(out) + ')'
    if h == 'lt0':
        return show(t[1]) + ' < 0'
    if h == 'eq0':
        return show(t[1]) + ' == 0'
    if h == 'eq':
        return show(t[1]) + ' == ' + show(t[2])
    if h == 'not':
        return '!(' + show(t[1]) + ')'
    if h == 'ptr':
        return '&' + show_place(t[1])
    if h == 'obj':
        return 'obj ' + show_place(t[1])
    if h in ('null',):
        return 'null'
    if h == 'closure':
        return 'lambda@' + str(t[2])
    return str(h) + '(' + ', '.join(show(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ')'


def show_place(p):
    if not (isinstance(p, tuple) and len(p) == 2 and isinstance(p[0], tuple)):
        return show(p) if isinstance(p, tuple) else str(p)
    root, path = p
    if root[0] == 'this':
        s = 'this' + (str(root[1]) if len(root) > 1 and root[1] else '')
    elif root[0] in ('local', 'param', 'global', 'heap', 'temp'):
        s = str(root[1]) if root[0] != 'heap' else 'heap%s' % (root[1],)
    elif root[0] == 'deref':
        s = '*' + show(root[1])
    elif root[0] == 'elem':
        s = show_place(root[1]) + '[' + (show(root[2]) if isinstance(root[2], tuple) else str(root[2])) + ']'
    else:
        s = str(root)
    for x in path:
        s += '.' + (show(x) if isinstance(x, tuple) else str(x))
    return s

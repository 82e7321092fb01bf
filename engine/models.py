"""Abstract models of the standard library the analysed code relies on."""
from fractions import Fraction as Fr
from terms import *
from absint import canon
from prog import bare, is_ref, split_targs, INTS, FLOATS, AnalysisBroken

EMPTY = ('u', 'empty')
NPOS = C(2 ** 64 - 1)
NS = 10 ** 9

# ------------------------------------------------------------------ helpers


def _ratio(r):
    n, a = split_targs(bare(r)) if r else ('', [])
    if n == 'std::ratio':
        num = int(a[0].rstrip('LU')) if a else 1
        den = int(a[1].rstrip('LU')) if len(a) > 1 else 1
        return Fr(num, den)
    return Fr(1)


_period = {}


def period_of(t):
    """length of one tick in nanoseconds"""
    r = _period.get(t)
    if r is not None:
        return r
    n, a = split_targs(bare(t))
    if n == 'std::chrono::time_point':
        d = a[1] if len(a) > 1 else 'std::chrono::duration<long, std::ratio<1, 1000000000>>'
        r = period_of(d)
    elif n == 'std::chrono::duration':
        r = _ratio(a[1]) * NS if len(a) > 1 else Fr(NS)
    else:
        r = Fr(1)
    if r.denominator == 1:
        r = int(r)
    _period[t] = r
    return r


def is_chrono(t):
    t = bare(t)
    return t.startswith('std::chrono::duration<') or t.startswith('std::chrono::time_point<')


def rep_of(t):
    n, a = split_targs(bare(t))
    if n == 'std::chrono::time_point':
        return rep_of(a[1]) if len(a) > 1 else 'long'
    return a[0] if a else 'long'


def head(t):
    return split_targs(bare(t))[0]


SEQ = {'std::vector', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'std::priority_queue', 'std::forward_list', 'std::initializer_list', 'std::span'}
MAPS = {'std::map', 'std::multimap', 'std::unordered_map', 'std::unordered_multimap'}
SETS = {'std::set', 'std::multiset', 'std::unordered_set', 'std::unordered_multiset'}
CONT = SEQ | MAPS | SETS
STRS = {'std::basic_string', 'std::basic_string_view'}
GUARDS = {'std::lock_guard', 'std::scoped_lock', 'std::unique_lock', 'std::shared_lock'}
MUTEXES = {'std::mutex', 'std::recursive_mutex', 'std::shared_mutex', 'std::timed_mutex', 'std::recursive_timed_mutex', 'std::shared_timed_mutex'}


def default_value(I, t):
    h = head(t)
    if h in CONT or h in STRS:
        return ('str', '') if h in STRS else EMPTY
    if h in ('std::unique_ptr', 'std::shared_ptr', 'std::weak_ptr', 'std::function', 'std::move_only_function'):
        return NULL
    if h in ('std::thread', 'std::jthread'):
        return ('thread', None)
    if is_chrono(t):
        return ZERO
    if h in ('std::unique_lock', 'std::shared_lock'):
        return ('guard', (), False)
    if h in INTS or h in FLOATS:
        return ZERO
    if bare(t).endswith('*'):
        return NULL
    if h == 'std::atomic':
        a = split_targs(bare(t))[1]
        return default_value(I, a[0]) if a else ZERO
    return ('u', 'default:' + bare(t))


def size_of(c):
    if c[0] == 'str':
        return C(len(c[1].encode('utf-8', 'surrogateescape')))
    if c[0] in ('initlist', 'cvec'):
        return C(len(c[1]))
    if c[0] == 'u':
        k = c[1]
        if k == 'empty':
            return ZERO
        if k in ('push_back', 'push_front', 'push'):
            return add(size_of(c[2]), ONE)
        if k in ('pop_back', 'pop_front'):
            return sub(size_of(c[2]), ONE)
        if k in ('erase1',):
            return sub(size_of(c[2]), ONE)
        if k in ('put', 'resize'):
            return c[3] if k == 'resize' else size_of(c[2])
        if k == 'insert_new' or k == 'minsert':
            return add(size_of(c[2]), ONE)
        if k == 'concat':
            r = ZERO
            for x in c[2:]:
                r = add(r, size_of(x))
            return r
        if k == 'view':
            return size_of(c[2])
    return ('size', c)


def empty_term(c):
    return eq(size_of(c), ZERO)


def container_elems(I, place, ct):
    """the elements when they are exactly known (then loops over them are unrolled)"""
    if ct[0] == 'initlist':
        return list(ct[1])
    if ct[0] == 'cvec':
        return [('L', (('cell', i), ())) for i in ct[1]]
    if ct[0] == 'u' and ct[1] == 'empty':
        return []
    return None


def max_unsigned(v):
    """an upper bound of an unsigned quantity from its mask structure, or None"""
    if is_c(v):
        return int(v[1]) if v[1] >= 0 else None
    if v[0] == 'u':
        if v[1] == '&':
            ms = [m for m in (max_unsigned(v[2]), max_unsigned(v[3])) if m is not None]
            return min(ms) if ms else None
        if v[1] in ('|', '^'):
            a, b = max_unsigned(v[2]), max_unsigned(v[3])
            if a is None or b is None:
                return None
            return (1 << max(a.bit_length(), b.bit_length())) - 1
        if v[1] == '>>' and is_c(v[3]):
            a = max_unsigned(v[2])
            return a >> int(v[3][1]) if a is not None else None
        if v[1] == '<<' and is_c(v[3]):
            a = max_unsigned(v[2])
            return a << int(v[3][1]) if a is not None else None
        if v[1] == 'narrow':
            return (1 << int(v[2][1])) - 1
        if v[1] == 'byte':
            return 255
    if v[0] == 's' and len(v) > 4:
        return v[4]
    return None


def known_bits(v, w=64):
    """(zeros, ones): masks of bits known to be 0 / 1"""
    full = (1 << w) - 1
    if is_c(v):
        x = int(v[1]) & full
        return (~x & full, x)
    if v[0] == 'u':
        k = v[1]
        if k == '&':
            a, b = known_bits(v[2], w), known_bits(v[3], w)
            return (a[0] | b[0], a[1] & b[1])
        if k == '|':
            a, b = known_bits(v[2], w), known_bits(v[3], w)
            return (a[0] & b[0], a[1] | b[1])
        if k == '^':
            a, b = known_bits(v[2], w), known_bits(v[3], w)
            kn = (a[0] | a[1]) & (b[0] | b[1])
            x = (a[1] ^ b[1]) & kn
            return (kn & ~x, x)
        if k == '~':
            a = known_bits(v[2], w)
            return (a[1], a[0])
        if k == '>>' and is_c(v[3]):
            n = int(v[3][1])
            a = known_bits(v[2], w)
            hi = full & ~(full >> n)
            return ((a[0] >> n) | hi, a[1] >> n)
        if k == '<<' and is_c(v[3]):
            n = int(v[3][1])
            a = known_bits(v[2], w)
            return (((a[0] << n) | ((1 << n) - 1)) & full, (a[1] << n) & full)
        if k == 'narrow':
            b = int(v[2][1])
            m = (1 << b) - 1
            a = known_bits(v[3], w)
            return ((a[0] & m) | (full & ~m), a[1] & m)
        if k == 'byte':
            return (full & ~255, 0)
    m = max_unsigned(v)
    if m is not None:
        b = m.bit_length()
        return (full & ~((1 << b) - 1), 0)
    return (0, 0)


def bitop(op, a, b, t):
    if is_c(a) and is_c(b):
        x, y = int(a[1]), int(b[1])
        r = {'&': x & y, '|': x | y, '^': x ^ y, '<<': (x << y) if 0 <= y < 200 else 0, '>>': (x >> y) if 0 <= y < 200 else 0}[op]
        bits, s = INTS.get(bare(t), (64, True))
        r &= (1 << bits) - 1
        if s and r >> (bits - 1):
            r -= 1 << bits
        return C(r)
    if op == '&':
        # boolean conjunction of conditions
        for x, y in ((a, b), (b, a)):
            if is_c(x) and x[1] == 0:
                return ZERO
    if op in ('|', '^'):
        if is_c(a) and a[1] == 0:
            return b
        if is_c(b) and b[1] == 0:
            return a
    if op in ('<<', '>>') and is_c(b) and b[1] == 0:
        return a
    # shifts by constants of plain arithmetic terms are kept symbolic
    z, o = known_bits(('u', op, a, b))
    if (z | o) == (1 << 64) - 1:
        return C(o)
    return ('u', op, a, b)


def val(I, a, t=''):
    """term of an argument"""
    if a[0] == 'L':
        return I.load(a[1], t or I.ctypes.get(a[1], ''), quiet=True)
    return a


def T(I, a, t=''):
    return I.term_of(a, t)


def scalar_place(I, v, t):
    p = I.new_temp(t)
    I.store(p, v, t, quiet=True)
    return ('L', p)


def ref_or_val(I, place, t):
    return ('L', place)


# ------------------------------------------------------------------ iterators
# ('it', container place, container term, pos)    pos: ('begin',) ('end',) ('find',key) ('elem',x) ('loop',name) ('adv',pos,n)


def mk_it(I, place, pos):
    ct = I.ctypes.get(place, '')
    cv = I.load(place, ct, quiet=True)
    return ('it', place, cv, pos)


def it_place(I, it):
    p = (('elem', it[1], it[3] if it[3][0] != 'begin' else ('front', it[2])), ())
    ct = I.ctypes.get(it[1], '')
    et = I.elem_type(ct)
    if et:
        I.ctypes.setdefault(p, bare(et))
    h = head(ct)
    if h in STRS and p not in I.mem:
        off = {'begin': ZERO}.get(it[3][0])
        if off is None and it[3][0] == 'adv' and it[3][1] == ('begin',):
            off = it[3][2]
        if off is not None:
            I.mem[p] = charat(it[2], off)
    return p


def it_binop(I, op, a, b):
    if op in ('==', '!='):
        r = it_eq(I, a, b)
        return lnot(r) if op == '!=' else r
    if op in ('+', '-') and a[0] == 'it' and b[0] != 'it':
        return it_adv(a, b if op == '+' else neg(b))
    if op == '-' and a[0] == 'it' and b[0] == 'it':
        pa, pb = it_off(a), it_off(b)
        if pa is not None and pb is not None:
            return sub(pa, pb)
        return ('u', 'itdiff', a, b)
    if op in ('<', '<=', '>', '>='):
        pa, pb = (it_off(a) if a[0] == 'it' else None), (it_off(b) if b[0] == 'it' else None)
        if pa is not None and pb is not None:
            return {'<': lt(pa, pb), '>': lt(pb, pa), '<=': le(pa, pb), '>=': le(pb, pa)}[op]
        return ('u', 'it' + op, a, b)
    return NotImplemented


def it_off(a):
    pos = a[3]
    if pos[0] == 'begin':
        return ZERO
    if pos[0] == 'end':
        return size_of(a[2])
    if pos[0] == 'adv':
        x = it_off(('it', a[1], a[2], pos[1]))
        return add(x, pos[2]) if x is not None else None
    return None


def it_adv(a, n):
    if n == ZERO:
        return a
    pos = a[3]
    if pos[0] == 'adv':
        m = add(pos[2], n)
        return ('it', a[1], a[2], ('adv', pos[1], m) if m != ZERO else pos[1])
    return ('it', a[1], a[2], ('adv', pos, n))


def it_eq(I, a, b):
    if a == b:
        return TRUE
    if a[0] == 'it' and b[0] == 'it' and a[1] == b[1]:
        x, y = a[3], b[3]
        if x == y:
            return TRUE
        oa, ob = it_off(a), it_off(b)
        if oa is not None and ob is not None:
            return eq(oa, ob)
        for p, q in ((x, y), (y, x)):
            if q == ('end',) and p[0] in ('find', 'elem', 'generic'):
                return FALSE
    x, y = sorted((a, b), key=rank)
    return ('eq', x, y)


def charat(s, i):
    if s[0] == 'str' and is_c(i):
        bs = s[1].encode('utf-8', 'surrogateescape')
        return C(bs[int(i[1])] if int(i[1]) < len(bs) else 0)
    return ('u', 'charat', s, i)


def concat(a, b):
    parts = []
    for x in (a, b):
        if x[0] == 'u' and x[1] == 'concat':
            parts += list(x[2:])
        else:
            parts.append(x)
    out = []
    for x in parts:
        if x == ('str', ''):
            continue
        if out and out[-1][0] == 'str' and x[0] == 'str':
            out[-1] = ('str', out[-1][1] + x[1])
        else:
            out.append(x)
    if not out:
        return ('str', '')
    if len(out) == 1:
        return out[0]
    return ('u', 'concat') + tuple(out)


def sview(v):
    """a string_view / c_str of a string denotes the same characters"""
    return v


# ------------------------------------------------------------------ dispatch tables
FN = {}      # stripped qualified name -> f(I, ref, this, args, node)
METH = {}    # (class head, method) -> f


def fn(*names):
    def deco(f):
        for n in names:
            FN[n] = f
        return f
    return deco


def dispatch(I, ref, this, args, node):
    sq = ref.get('sq', '')
    if ref.get('lib'):
        return NotImplemented
    if not (sq.startswith('std::') or sq.startswith('__gnu_cxx') or '::' not in sq or sq.startswith('date::')):
        return NotImplemented
    f = FN.get(sq)
    if f is not None:
        if maythrow(I, ref):
            raise_std(I, ref)
        r = f(I, ref, this, args, node)
        if r is not NotImplemented:
            return r
    cls = ref.get('cqn') or ref.get('cls') or ''
    n = ref.get('n', '')
    h = class_head(ref)
    if h:
        if maythrow(I, ref):
            raise_std(I, ref)
        if h in GUARDS:
            return guard_method(I, ref, this, args, node, n, h)
        if h in MUTEXES:
            return mutex_method(I, ref, this, args, node, n)
        if h in ('std::condition_variable', 'std::condition_variable_any'):
            return cv_method(I, ref, this, args, node, n)
        if h in ('std::thread', 'std::jthread'):
            return thread_method(I, ref, this, args, node, n, h)
        if h in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag', 'std::__atomic_float'):
            return atomic_method(I, ref, this, args, node, n)
        if h in ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'std::weak_ptr', 'std::__weak_ptr'):
            return ptr_method(I, ref, this, args, node, n, h)
        if h in ('std::function', 'std::move_only_function'):
            return function_method(I, ref, this, args, node, n)
        if h == 'std::_Node_handle':
            r = node_method(I, ref, this, args, node, n)
            if r is not NotImplemented:
                return r
        if h == 'std::optional':
            return optional_method(I, ref, this, args, node, n)
        if h in ('std::pair', 'std::tuple'):
            return tuple_method(I, ref, this, args, node, n, h)
        if h in ('std::chrono::duration', 'std::chrono::time_point'):
            return chrono_method(I, ref, this, args, node, n, h)
        if h in ('std::chrono::year_month_day', 'std::chrono::hh_mm_ss', 'std::chrono::year', 'std::chrono::month', 'std::chrono::day', 'std::chrono::weekday'):
            return cal_method(I, ref, this, args, node, n, h)
        if h in CONT:
            return cont_method(I, ref, this, args, node, n, h)
        if h in STRS:
            return str_method(I, ref, this, args, node, n, h)
        if h == 'std::array':
            return array_method(I, ref, this, args, node, n)
        if h in ('std::packaged_task', 'std::promise', 'std::future', 'std::__basic_future', 'std::shared_future'):
            return future_method(I, ref, this, args, node, n, h)
        if h in ('std::latch', 'std::counting_semaphore', 'std::barrier'):
            return sync_method(I, ref, this, args, node, n, h)
        if h in ('std::basic_ios', 'std::basic_istream', 'std::basic_ostream', 'std::basic_stringstream', 'std::basic_istringstream', 'std::basic_ostringstream', 'std::ios_base', 'std::basic_iostream'):
            return stream_method(I, ref, this, args, node, n, h)
        if h in ('__gnu_cxx::__normal_iterator', 'std::_Rb_tree_iterator', 'std::_Rb_tree_const_iterator', 'std::__detail::_Node_iterator', 'std::__detail::_Node_const_iterator',
                 'std::_Deque_iterator', 'std::_List_iterator', 'std::_List_const_iterator', 'std::reverse_iterator', 'std::__detail::_Node_iterator_base'):
            return iter_method(I, ref, this, args, node, n)
        if h == 'std::type_info':
            if n in ('hash_code', 'name'):
                return ('u', n, typeid_key(this))
            if n in ('operator==', 'operator!='):
                r = eq(typeid_key(this), typeid_key(I.as_place(args[0])))
                return lnot(r) if n == 'operator!=' else r
        if h == 'std::type_index':
            if ref.get('k') == 'ctor' and args:
                p = I.as_place(args[0])
                if p[0][0] == 'typeid':
                    I.store(this, ('u', 'type_index', typeid_key(p)), 'std::type_index', quiet=True)
                    return ('void',)
                return NotImplemented
            if n == 'hash_code':
                return ('u', 'hash_code', I.load(this, 'std::type_index', quiet=True)[2] if I.load(this, 'std::type_index', quiet=True)[0] == 'u' else I.load(this, 'std::type_index', quiet=True))
            if n == 'operator==':
                return eq(T(I, ('L', this), 'std::type_index'), T(I, args[0], 'std::type_index'))
        if h in ('std::hash', 'std::__str_hash_base') and n == 'operator()':
            return ('u', 'hash', T(I, args[0]))
        if h in ('std::less', 'std::greater', 'std::equal_to', 'std::less_equal', 'std::greater_equal', 'std::plus', 'std::minus') and n == 'operator()':
            a, b = T(I, args[0]), T(I, args[1])
            return {'std::less': lambda: cmp_lt(I, a, b), 'std::greater': lambda: cmp_lt(I, b, a), 'std::equal_to': lambda: eq(a, b), 'std::less_equal': lambda: lnot(cmp_lt(I, b, a)),
                    'std::greater_equal': lambda: lnot(cmp_lt(I, a, b)), 'std::plus': lambda: add(a, b), 'std::minus': lambda: sub(a, b)}[h]()
        if h in ('std::_Bind', 'std::_Bind_front', 'std::reference_wrapper', 'std::_Bind_result'):
            if n == 'operator()':
                return I.call_value(I.load(this, quiet=True, t=I.ctypes.get(this, '')), args, node)
            if h == 'std::reference_wrapper' and ref.get('k') != 'ctor':
                v = I.load(this, I.ctypes.get(this, ''), quiet=True)
                return ('L', v[1]) if v[0] == 'ptr' else ('L', (('deref', v), ()))
            if h == 'std::reference_wrapper' and args:
                I.store(this, ('ptr', I.as_place(args[0])), ref['cls'], quiet=True)
                return ('void',)
        if h == 'std::numeric_limits':
            return limits(I, ref, n)
    return NotImplemented


_head_cache = {}


def class_head(ref):
    q = ref.get('sq', '')
    r = _head_cache.get(q)
    if r is None:
        n = ref.get('n', '')
        r = ''
        if ref.get('cls') or ref.get('k') in ('ctor', 'dtor', 'conv') or ref.get('cqn'):
            i = q.rfind('::' + n)
            if ref.get('k') == 'conv' or n.startswith('operator '):
                i = q.find('::operator ')
            r = q[:i] if i > 0 else ''
        _head_cache[q] = r
    return r


def maythrow(I, ref):
    return I.throws(I, ref) and not ref.get('noexcept') and I.choose(2) == 1


def raise_std(I, ref):
    from absint import CxxThrow
    I.ev_add('stdthrow', callee=ref.get('sq'))
    raise CxxThrow('*', ('s', 'exc:' + ref.get('sq', '')), std=not ref.get('sq', '').startswith('std::function'))


def construct(I, ref, place, args, node):
    """constructors of standard types; NotImplemented falls back to dispatch/special handling"""
    return NotImplemented


def typeid_key(p):
    if p is not None and p[0][0] == 'typeid':
        k = p[0][1]
        return ('str', k) if isinstance(k, str) else k
    return ('s', 'typeid:' + show_place(p)) if p is not None else ('s', 'typeid?')


def is_copy(ref):
    return ref.get('special') in ('copy', 'move', 'copyassign', 'moveassign')


def limits(I, ref, n):
    t = bare(ref.get('ret', ''))
    if n in ('max', 'min', 'lowest') and t in INTS:
        bits, s = INTS[t]
        if n == 'max':
            return C((1 << (bits - 1)) - 1 if s else (1 << bits) - 1)
        return C(-(1 << (bits - 1)) if s else 0)
    return ('s', 'limit:%s:%s' % (t, n), 'r', 'nn' if n in ('max', 'epsilon', 'infinity') else '')


def cmp_lt(I, a, b):
    def num(x):
        return x if not (nonnum(x) or x[0] in ('agg',) or (x[0] == 'u' and x[1] not in ('charat', 'find', 'hash', 'at'))) else ('ord', x)
    if a[0] == 'str' and b[0] == 'str':
        return C(a[1] < b[1])
    na, nb = num(a), num(b)
    if na is not a or nb is not b:
        na, nb = ('ord', a) if not numeric(a) else a, ('ord', b) if not numeric(b) else b
    return lt(na, nb)


# ------------------------------------------------------------------ locks
def guard_method(I, ref, this, args, node, n, h):
    ct = ref.get('cls', '')
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        ms, tag = [], None
        for i, a in enumerate(args):
            t = bare((ref.get('params') or [''] * 9)[i]) if i < len(ref.get('params') or []) else ''
            if head(t) in ('std::defer_lock_t', 'std::adopt_lock_t', 'std::try_to_lock_t'):
                tag = head(t)
                continue
            if t.startswith('std::chrono') or is_chrono(t):
                tag = 'timed'
                continue
            p = I.as_place(a, t)
            ms.append(p)
        owned = True
        mode = 's' if h == 'std::shared_lock' else 'x'
        if tag == 'std::defer_lock_t' or not ms:
            owned = False
        elif tag == 'std::adopt_lock_t':
            pass
        elif tag in ('std::try_to_lock_t', 'timed'):
            if I.choose(2) == 0:
                for m in ms:
                    I.lock(m, mode, 'try')
            else:
                owned = False
        else:
            for m in ms:
                I.lock(m, mode, 'multi' if len(ms) > 1 else None)
        I.store(this, ('guard', tuple(ms), owned), ct, quiet=True)
        return ('void',)
    v = I.load(this, ct, quiet=True)
    if v[0] != 'guard':
        return NotImplemented
    mode = 's' if h == 'std::shared_lock' else 'x'
    if n == 'unlock':
        if not v[2]:
            I.ev_add('unlock_unheld', mutex=v[1][0] if v[1] else None)
        for m in reversed(v[1]):
            I.unlock(m)
        I.mem[this] = ('guard', v[1], False)
        return ('void',)
    if n == 'lock':
        for m in v[1]:
            I.lock(m, mode)
        I.mem[this] = ('guard', v[1], True)
        return ('void',)
    if n.startswith('try_lock'):
        if I.choose(2) == 0:
            for m in v[1]:
                I.lock(m, mode, 'try')
            I.mem[this] = ('guard', v[1], True)
            return TRUE
        return FALSE
    if n in ('owns_lock', 'operator bool'):
        return C(1 if v[2] else 0)
    if n == 'release':
        I.mem[this] = ('guard', (), False)
        return ('ptr', v[1][0]) if v[1] else NULL
    if n == 'mutex':
        return ('ptr', v[1][0]) if v[1] else NULL
    if n == 'operator=' and args:
        src = I.as_place(args[0])
        if v[2]:
            for m in reversed(v[1]):
                I.unlock(m)
        sv = I.mem.get(src, ('guard', (), False))
        I.mem[this] = sv
        I.mem[src] = ('guard', (), False)
        return ('L', this)
    return NotImplemented


def mutex_method(I, ref, this, args, node, n):
    if ref.get('k') == 'ctor':
        return ('void',)
    if n in ('lock', 'lock_shared'):
        I.lock(this, 's' if n == 'lock_shared' else 'x')
        return ('void',)
    if n in ('unlock', 'unlock_shared'):
        I.unlock(this)
        return ('void',)
    if n.startswith('try_lock'):
        if I.choose(2) == 0:
            I.lock(this, 'x', 'try')
            return TRUE
        return FALSE
    return NotImplemented


@fn('std::lock')
def std_lock(I, ref, this, args, node):
    for a in args:
        p = I.as_place(a)
        v = I.mem.get(p)
        if v is not None and v[0] == 'guard':
            for m in v[1]:
                I.lock(m, 'x', 'multi')
            I.mem[p] = ('guard', v[1], True)
        else:
            I.lock(p, 'x', 'multi')
    return ('void',)


def predicate_alts(I, pv):
    """the outcomes of a wait predicate in the current state, as (result, facts added)"""
    from absint import PathEnd, CxxThrow
    key = ('alts', I.ctxkey, tuple(I.dec[:I.didx]), len(I.events), I.nfresh, I.steps)
    if key in I.probes:
        return I.probes[key]
    snap, sc, ctx = I.snapshot(), I._scopes, I.ctxkey
    I.ctxkey = key

    def once():
        I.restore(snap)
        I._scopes = [list(x) for x in sc]
        f0 = len(I.facts)
        ev0 = len(I.events)
        I.inpred += 1
        try:
            r = I.truth(I.call_value(pv, [], {'t': 'bool'}), 'bool')
        except (PathEnd, CxxThrow):
            return None
        return (r, list(I.facts.items())[f0:], [e for e in I.events[ev0:] if e['kind'] == 'read'])
    try:
        out = [x for x in I.explore(once) if x is not None]
    finally:
        I.restore(snap)
        I._scopes = sc
        I.ctxkey = ctx
    I.probes[key] = out
    return out


def cv_method(I, ref, this, args, node, n):
    from absint import PathEnd
    if ref.get('k') == 'ctor':
        return ('void',)
    if n in ('notify_one', 'notify_all'):
        I.ev_add('notify', cv=this, all=(n == 'notify_all'))
        return ('void',)
    if n in ('wait', 'wait_for', 'wait_until'):
        lk = I.as_place(args[0])
        g = I.mem.get(lk)
        ms = g[1] if g is not None and g[0] == 'guard' else ()
        timed = n != 'wait'
        base = 2 if timed else 1
        pred = args[base] if len(args) > base else None
        dl = T(I, args[1]) if timed else None
        e = I.ev_add('cwait', cv=this, mutex=ms[0] if ms else None, timed=timed, haspred=pred is not None, deadline=dl, how=n,
                     owned=bool(g is not None and g[0] == 'guard' and g[2]), predline=I.curline)
        if pred is not None:
            e['alts'] = predicate_alts(I, I.rv(pred))
        I.havoc_shared('wait', without=ms[0] if ms else None)
        if pred is None:
            if not timed:
                I.ev_add('cwake', cv=this, timed=False, haspred=False)
                return ('void',)
            c = I.choose(2)
            I.ev_add('cwake', cv=this, timed=True, haspred=False, timeout=bool(c))
            return C(c)
        pv = I.rv(pred)
        I.inpred += 1
        try:
            r = I.call_value(pv, [], {'t': 'bool'})
            r = I.truth(r, 'bool')
        finally:
            I.inpred -= 1
        if not timed:
            if not r:
                raise PathEnd('infeasible')
            I.ev_add('cwake', cv=this, timed=False, haspred=True, result=True)
            return ('void',)
        I.ev_add('cwake', cv=this, timed=True, haspred=True, result=r, timeout=not r)
        return C(1 if r else 0)
    return NotImplemented


def thread_method(I, ref, this, args, node, n, h):
    ct = ref.get('cls', '') or h
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        if not args:
            I.store(this, ('thread', None), ct, quiet=True)
            return ('void',)
        spawn(I, this, args, ct)
        return ('void',)
    if n == 'hardware_concurrency':
        return ('s', 'hardware_concurrency', 'i', 'nn')
    v = I.load(this, ct, quiet=True) if this is not None else None
    if n == 'joinable':
        I.note_read(this, ct, method='joinable')
        if v[0] == 'thread':
            return C(1 if v[1] is not None else 0)
        return ('u', 'joinable', v)
    if n == 'join':
        I.note_read(this, ct, method='join')
        I.ev_add('join', place=this, val=v)
        I.mem[this] = ('thread', None)
        I.havoc_shared('join')
        return ('void',)
    if n == 'detach':
        I.ev_add('detach', place=this, val=v)
        I.mem[this] = ('thread', None)
        return ('void',)
    if n == 'operator=' and args:
        src = I.as_place(args[0])
        sv = I.load(src, ct, quiet=True)
        I.note_write(this, ct, sv, method='operator=')
        if not (v[0] == 'thread' and v[1] is None):
            I.ev_add('thread_assign_live', place=this, val=v, cond=('u', 'joinable', v))
        I.mem[this] = sv
        I.ctypes[this] = bare(ct)
        I.mem[src] = ('thread', None)
        return ('L', this)
    if n == 'swap':
        return NotImplemented
    if n in ('get_id', 'native_handle'):
        return ('u', n, v)
    if n in ('request_stop', 'get_stop_token', 'get_stop_source'):
        I.ev_add('call', fid=None, callee=ref['sq'], obj=this, args=[], argp=[], ref=ref)
        return I.ret_fresh(ref, n)
    return NotImplemented


def spawn(I, place, args, ct):
    f = I.rv(args[0])
    I.nfresh += 1
    v = ('thread', ('spawned', I.nfresh))
    I.ev_add('spawn', place=place, callee=f, args=[T(I, a) for a in args[1:]], argp=args[1:], t=ct, clo=I.closures.get(f) if f[0] == 'closure' else None)
    if 'spawn' in I.fork and I.choose(2):
        become_thread(I, f, [('L', I.as_place(I.rv(a))) for a in args[1:]], node={}, site=(I.events[-1]['fn'], I.events[-1]['line']), many=bool(I.loopstack))
    I.store(place, v, ct, quiet=True)


def become_thread(I, f, args, node, kind='thread_start', site=None, many=False):
    """continue this path as the new thread: its captures are known, everything shared is not"""
    from absint import PathEnd, CxxThrow
    I.locks = []
    I.havoc_shared('spawn')
    I.ev_add(kind, callee=f, site=site, many=many)
    I.threadpath = True
    I.flagoff = set()
    try:
        I.call_value(f, args, node)
    except CxxThrow as e:
        I.ev_add('terminate', callee='thread body', exc=e.t)
        raise PathEnd('terminate')
    raise PathEnd('threadend')


@fn('std::this_thread::sleep_until', 'std::this_thread::sleep_for')
def sleep(I, ref, this, args, node):
    I.ev_add('sleep', how=ref['n'], arg=T(I, args[0]))
    return ('void',)


@fn('std::this_thread::yield')
def yld(I, ref, this, args, node):
    return ('void',)


@fn('std::async')
def asy(I, ref, this, args, node):
    f = I.rv(args[0])
    I.ev_add('spawn', place=None, callee=f, args=[T(I, a) for a in args[1:]], argp=args[1:], t='async', clo=I.closures.get(f) if f[0] == 'closure' else None)
    return I.ret_fresh(ref, 'async')


def atomic_method(I, ref, this, args, node, n):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    ta = split_targs(bare(ct))[1]
    et = ta[0] if ta else 'bool'
    if ref.get('k') == 'ctor':
        v = I.rv(args[0], et) if args else default_value(I, ct)
        I.store(this, v, et, quiet=True)
        I.ctypes[this] = bare(ct)
        return ('void',)

    def st(v, rmw=None):
        I.kill_sub(this)
        I.mem[this] = v
        I.ctypes[this] = bare(ct)
        I.note_write(this, ct, v, atomic=True, **({'rmw': rmw} if rmw else {}))

    def ld():
        root = this[0][0]
        if I.shared(this) and not (I.guarded(this) and this in I.mem):
            if I.monotone and I.threadpath and et == 'bool' and canon(this) in I.flagoff:
                I.note_read(this, ct, atomic=True, val=FALSE)
                return FALSE
            v = I.fresh('atomic:' + show_place(this), et)
            if I.monotone and I.threadpath and et == 'bool':
                # a stop flag never comes back on while this thread lives (checked by the lifecycle rule)
                if not I.branch(v):
                    I.flagoff.add(canon(this))
            if I.guarded(this):
                I.mem[this] = v
            if is_chrono(et):
                v = mul(v, C(period_of(et)))
        else:
            v = I.load(this, et, quiet=True)
        I.note_read(this, ct, atomic=True, val=v)
        return v
    if n == 'load' or n.startswith('operator ') or ref.get('k') == 'conv':
        if I.is_struct(et):
            return NotImplemented
        return ld()
    if n in ('store',):
        st(I.rv(args[0], et))
        return ('void',)
    if n == 'operator=':
        v = I.rv(args[0], et)
        st(v)
        return v
    if n in ('operator++', 'operator--', 'fetch_add', 'fetch_sub', 'operator+=', 'operator-='):
        old = I.fresh('atomic:' + show_place(this), et) if I.shared(this) else I.load(this, et, quiet=True)
        d = I.rv(args[0], et) if args and n in ('fetch_add', 'fetch_sub', 'operator+=', 'operator-=') else ONE
        new = add(old, d) if n in ('operator++', 'fetch_add', 'operator+=') else sub(old, d)
        st(new, rmw='+' if n in ('operator++', 'fetch_add', 'operator+=') else '-')
        I.events[-1]['old'] = old
        I.events[-1]['delta'] = d
        post = n.startswith('fetch') or (n in ('operator++', 'operator--') and args)
        return old if post else new
    if n == 'exchange' or n == 'test_and_set':
        old = ld()
        st(I.rv(args[0], et) if n == 'exchange' else TRUE, rmw='xchg')
        I.events[-1]['old'] = old
        return old
    if n.startswith('compare_exchange'):
        exp = I.rv(args[0], et)
        old = ld()
        if I.branch(eq(old, exp)):
            st(I.rv(args[1], et), rmw='cas')
            I.events[-1]['old'] = exp
            return TRUE
        I.store(I.as_place(args[0]), old, et)
        return FALSE
    if n == 'clear':
        st(FALSE)
        return ('void',)
    if n in ('wait', 'notify_one', 'notify_all'):
        if n == 'wait':
            I.ev_add('atomic_wait', place=this)
            I.havoc_shared('wait')
        else:
            I.ev_add('notify', cv=this, all=(n == 'notify_all'))
        return ('void',)
    return NotImplemented


def sync_method(I, ref, this, args, node, n, h):
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        v = I.rv(args[0], 'long') if args else ZERO
        I.store(this, ('u', h, v), ref.get('cls', ''), quiet=True)
        I.ev_add('sync_new', place=this, what=h, count=v)
        return ('void',)
    I.ev_add('sync', place=this, what=h, op=n, args=[T(I, a) for a in args])
    if n in ('arrive_and_wait', 'wait', 'acquire', 'try_acquire_for', 'try_acquire_until'):
        I.havoc_shared('wait')
    if bare(ref.get('ret', 'void')) == 'void':
        return ('void',)
    return I.ret_fresh(ref, n)


def ptask_run(I, v, args, node):
    """execute a packaged task: what its callable returns or throws goes to the future"""
    I.ev_add('ptask_run', val=v)
    if v[0] == 'ptask':
        return run_swallow(I, v[2], args, node)
    I.ev_add('invoke', callee=v, args=[T(I, a) for a in args], argp=args, packaged=True)
    return ('void',)


def future_method(I, ref, this, args, node, n, h):
    ct = ref.get('cls', '')
    if h == 'std::packaged_task':
        if ref.get('k') == 'ctor' and not is_copy(ref):
            I.nfresh += 1
            f = I.rv(args[0]) if args else NULL
            I.store(this, ('ptask', I.nfresh, f if f[0] != 'obj' else ('L', f[1])), ct, quiet=True)
            I.ev_add('ptask_new', id=I.nfresh, callee=f, t=ct)
            return ('void',)
        v = I.load(this, I.ctypes.get(this, ct), quiet=True)
        if n == 'get_future':
            I.ev_add('get_future', src=v)
            return ('future', v)
        if n == 'operator()':
            return ptask_run(I, v, args, node)
        if n == 'valid':
            return C(1) if v[0] == 'ptask' else ('u', 'valid', v)
        return NotImplemented
    if h == 'std::promise':
        if ref.get('k') == 'ctor' and not is_copy(ref):
            I.nfresh += 1
            I.store(this, ('promise', I.nfresh), ct, quiet=True)
            return ('void',)
        v = I.load(this, I.ctypes.get(this, ct), quiet=True)
        if n == 'get_future':
            return ('future', v)
        if n.startswith('set_'):
            I.ev_add('promise_set', place=this, val=v, how=n, args=[T(I, a) for a in args])
            return ('void',)
        return NotImplemented
    # futures
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        I.store(this, ('u', 'nofuture'), ct, quiet=True)
        return ('void',)
    v = I.load(this, I.ctypes.get(this, ct), quiet=True)
    if n in ('wait', 'get', 'wait_for', 'wait_until'):
        I.ev_add('fwait', val=v, how=n)
        I.havoc_shared('wait')
        if n == 'wait':
            return ('void',)
        return I.ret_fresh(ref, n) if bare(ref.get('ret', '')) != 'void' else ('void',)
    return NotImplemented


def run_swallow(I, f, args, node):
    from absint import CxxThrow
    if f[0] == 'L':
        f = ('obj', f[1], I.ctypes.get(f[1], ''))
    try:
        I.call_value(f, args, node)
    except CxxThrow:
        I.ev_add('swallowed')
    return ('void',)


# ------------------------------------------------------------------ smart pointers
def ptr_method(I, ref, this, args, node, n, h):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    if ref.get('k') == 'ctor':
        ct = ref.get('cls', '')
        if is_copy(ref):
            return NotImplemented
        I.ctypes[this] = bare(ct)
        if not args:
            I.store(this, NULL, ct, quiet=True)
            return ('void',)
        a = args[0]
        at = (ref.get('params') or [''])[0]
        v = I.rv(a, bare(at))
        if len(args) == 2 and h in ('std::shared_ptr', 'std::__shared_ptr') and split_targs(bare(at))[0] in ('std::shared_ptr',):
            v = I.rv(args[1])   # aliasing constructor
        elif len(args) == 2 and h in ('std::shared_ptr', 'std::__shared_ptr') and bare(at).endswith('*'):
            v = ('u', 'with_deleter', v)    # not the owner its pointer came from
        if v[0] in ('void',):
            v = NULL
        src_t = split_targs(bare(at))
        dst_t = split_targs(bare(ct))
        if src_t[0] in ('std::shared_ptr', 'std::unique_ptr') and src_t[1] and dst_t[1]:
            v = conv_ptr(I, v, src_t[1][0], dst_t[1][0])
        elif bare(at).endswith('*') and dst_t[1] and dst_t[1][0] == 'void':
            v = conv_ptr(I, v, bare(bare(at)[:-1]), 'void')
        I.store(this, v, ct, quiet=True)
        if at.endswith('&&') and a[0] == 'L' and src_t[0] in ('std::shared_ptr', 'std::unique_ptr'):
            I.ev_add('movefrom', place=a[1], t=bare(at))
            I.mem[a[1]] = NULL
        elif src_t[0] == 'std::unique_ptr' and a[0] == 'L':
            I.mem[a[1]] = NULL
        return ('void',)
    if this is None:
        return NotImplemented
    if n == 'operator=':
        if is_copy(ref):
            sp = I.as_place(args[0], ct)
            v = I.load(sp, ct)
            I.store(this, v, ct)
            if ref.get('special') == 'moveassign':
                I.mem[sp] = NULL
            return ('L', this)
        v = I.rv(args[0])
        at = (ref.get('params') or [''])[0]
        src_t, dst_t = split_targs(bare(at)), split_targs(bare(ct))
        if src_t[0] in ('std::shared_ptr', 'std::unique_ptr') and src_t[1] and dst_t[1]:
            v = conv_ptr(I, v, src_t[1][0], dst_t[1][0])
        I.store(this, v, ct)
        if args[0][0] == 'L' and at.endswith('&&'):
            I.mem[args[0][1]] = NULL
        return ('L', this)
    v = I.load(this, ct)
    if n in ('get',):
        return v
    if n == 'operator->':
        return v
    if n == 'operator*':
        ta = split_targs(bare(ct))[1]
        return ('L', I.deref(v, ta[0] if ta else ''))
    if n == 'operator bool' or ref.get('k') == 'conv':
        return lnot(eq(v, NULL))
    if n == 'reset':
        nv = I.rv(args[0]) if args else NULL
        I.store(this, nv, ct)
        return ('void',)
    if n == 'release':
        I.store(this, NULL, ct)
        return v
    if n == 'use_count':
        return ('u', 'use_count', v)
    if n == 'swap':
        o = I.as_place(args[0])
        ov = I.load(o, ct)
        I.store(this, ov, ct)
        I.store(o, v, ct)
        return ('void',)
    if n == 'lock':
        return v if I.choose(2) == 0 else NULL
    return NotImplemented


def conv_ptr(I, v, src, dst):
    """pointer conversion between static types, made visible through void"""
    s, d = bare(src), bare(dst)
    if s == d:
        return v
    if d == 'void':
        return ('asvoid', s, v) if v != NULL else v
    if s == 'void':
        if v[0] == 'asvoid':
            return v[2] if v[1] == d else ('badcast', v[1], d, v[2])
        return ('fromvoid', d, v)
    return v


@fn('std::static_pointer_cast', 'std::dynamic_pointer_cast', 'std::reinterpret_pointer_cast', 'std::const_pointer_cast')
def ptrcast(I, ref, this, args, node):
    a = args[0]
    at = (ref.get('params') or [''])[0]
    v = I.rv(a, bare(at))
    src, dst = split_targs(bare(at))[1], split_targs(bare(ref.get('ret', '')))[1]
    if src and dst:
        I.ev_add('ptrcast', frm=bare(src[0]), to=bare(dst[0]), val=v, how=ref['n'])
        v = conv_ptr(I, v, src[0], dst[0])
    if ref['n'] == 'dynamic_pointer_cast' and I.choose(2):
        return NULL
    return v


def find_ctor(I, t, args):
    rec = I.P.recs.get(bare(t))
    if not rec:
        return None
    best = None
    for m in rec.get('methods') or []:
        mr = I.P.ref(m) or {}
        if mr.get('k') != 'ctor' or mr.get('deleted'):
            continue
        ps = mr.get('params') or []
        if len(ps) < len(args):
            continue
        f = I.P.fns.get(m)
        score = 0
        for a, p in zip(args, ps):
            at = I.ctypes.get(a[1], '') if a[0] == 'L' else (a[2] if a[0] == 'obj' else '')
            if at and bare(at) == bare(p):
                score += 4
            elif at and (I.is_struct(at) or head(at) in CONT or head(at) in STRS or head(at) == 'std::function' or at.startswith('(lambda')) and bare(at) != bare(p):
                score -= 4
        if len(ps) != len(args):
            score -= 1
        if f is None:
            score -= 2
        if mr.get('special') in ('copy', 'move') and not (args and score >= 4):
            score -= 5
        if best is None or score > best[0]:
            best = (score, m)
    return best[1] if best else None


def make_object(I, t, args, ref, node, root='heap'):
    I.nfresh += 1
    p = ((root, I.nfresh), ())
    I.ctypes[p] = bare(t)
    I.ev_add('new', place=p, t=t, args=[T(I, a) for a in args], argp=args, smart=True)
    rec = I.P.recs.get(bare(t))
    if rec and rec.get('lib'):
        m = find_ctor(I, t, args)
        if m is not None:
            I.call_fid(m, p, list(args) , None)
            I.ctypes[p] = bare(t)
            return p
        if I.is_struct(t):
            I.default_init(p, t)
        return p
    h = head(t)
    if h in ('std::latch', 'std::counting_semaphore'):
        v = I.rv(args[0], 'long') if args else ZERO
        I.store(p, ('u', h, v), t, quiet=True)
        I.ev_add('sync_new', place=p, what=h, count=v)
    elif h in GUARDS:
        for a in args:
            I.lock(I.as_place(a))
        I.store(p, ('guard', tuple(I.as_place(a) for a in args), True), t, quiet=True)
    elif h in ('std::packaged_task', 'std::promise'):
        if h == 'std::promise':
            v = ('promise', I.nfresh)
        else:
            f = I.rv(args[0]) if args else NULL
            v = f if f[0] == 'ptask' else ('ptask', I.nfresh, f)
        I.store(p, v, t, quiet=True)
    elif h == 'std::thread':
        spawn(I, p, args, t)
    elif len(args) == 1:
        I.store(p, I.rv(args[0]), t, quiet=True)
    elif not args:
        if I.is_struct(t):
            I.default_init(p, t)
        else:
            I.store(p, default_value(I, t), t, quiet=True)
    else:
        I.store(p, ('u', 'ctor:' + h) + tuple(T(I, a) for a in args), t, quiet=True)
    return p


@fn('std::make_unique', 'std::make_shared', 'std::allocate_shared', 'std::make_unique_for_overwrite')
def make_ptr(I, ref, this, args, node):
    ta = split_targs(bare(ref.get('ret', '')))[1]
    if ref['n'] == 'allocate_shared':
        args = args[1:]
    if not ta or ta[0].endswith(']'):
        return NotImplemented
    return ('ptr', make_object(I, ta[0], args, ref, node))


# ------------------------------------------------------------------ callables
def function_method(I, ref, this, args, node, n):
    ct = ref.get('cls', '')
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        if not args:
            I.store(this, NULL, ct, quiet=True)
            return ('void',)
        v = I.rv(args[0])
        if v[0] == 'obj':
            v = ('objfn', v[1], v[2])
        if v[0] == 'c':
            v = NULL
        I.store(this, v, ct, quiet=True)
        return ('void',)
    if n == 'operator()':
        v = I.load(this, I.ctypes.get(this, ct))
        if v[0] == 'objfn':
            v = ('obj', v[1], v[2])
        if v[0] == 's' or v == NULL:
            I.ev_add('fncall', callee=v, place=this, empty=I.facts.get(eq(v, NULL)) if v != NULL else True)
        return I.call_value(v, args, dict(node or {}, t=ref.get('ret', 'void')))
    if n == 'swap' and args:
        return std_swap(I, dict(ref, params=[ct, ct]), None, [('L', this), args[0]], node)
    if n == 'operator bool' or ref.get('k') == 'conv':
        v = I.load(this, I.ctypes.get(this, ct))
        return lnot(eq(v, NULL))
    if n == 'operator=':
        if is_copy(ref):
            return NotImplemented
        v = I.rv(args[0])
        if v[0] == 'obj':
            v = ('objfn', v[1], v[2])
        I.store(this, v, ct)
        return ('L', this)
    return NotImplemented


@fn('std::bind', 'std::bind_front')
def std_bind(I, ref, this, args, node):
    f = I.rv(args[0])
    if f[0] == 'obj':
        p = I.new_temp(f[2], 'bound')
        I.store(p, f, f[2], quiet=True)
        f = ('obj', p, f[2])
    bound = []
    ta = split_targs(bare(ref.get('ret', '')))[1]
    for a in args[1:]:
        v = I.rv(a)
        if v[0] == 'obj':
            p = I.new_temp(v[2], 'bound')
            I.store(p, v, v[2], quiet=True)
            bound.append(('L', p))
        else:
            p = I.new_temp(I.ctypes.get(a[1], '') if a[0] == 'L' else '', 'bound')
            I.mem[p] = v
            bound.append(('L', p))
    return ('bind', f, tuple(bound)) + (('front',) if ref['n'] == 'bind_front' else ())


@fn('std::invoke', 'std::__invoke', 'std::invoke_r')
def std_invoke(I, ref, this, args, node):
    f = I.rv(args[0])
    return I.call_value(f, args[1:], dict(node or {}, t=ref.get('ret', 'void')))


@fn('std::apply')
def std_apply(I, ref, this, args, node):
    f = I.rv(args[0])
    tp = I.as_place(args[1])
    tt = I.ctypes.get(tp) or bare((ref.get('params') or ['', ''])[1])
    fs = I.fields_of(tt) or []
    a = []
    for x, xt in fs:
        q = (tp[0], tp[1] + (x,))
        if is_ref(xt):
            v = I.mem.get(q)
            a.append(('L', v[1]) if v is not None and v[0] == 'ptr' else ('L', (('deref', ('s', 'ref:' + show_place(q))), ())))
        else:
            I.ctypes.setdefault(q, bare(xt))
            a.append(('L', q))
    return I.call_value(f, a, dict(node or {}, t=ref.get('ret', 'void')))


@fn('std::move', 'std::forward', 'std::as_const', 'std::forward_like', 'std::launder', 'std::move_if_noexcept')
def std_move(I, ref, this, args, node):
    if len(args) != 1:
        return NotImplemented
    return args[0] if args[0][0] in ('L', 'obj') else args[0]


@fn('std::addressof', 'std::__addressof', 'std::to_address')
def addrof(I, ref, this, args, node):
    return ('ptr', I.as_place(args[0]))


@fn('std::ref', 'std::cref')
def std_ref(I, ref, this, args, node):
    return ('ptr', I.as_place(args[0]))


@fn('std::swap', 'std::ranges::swap', 'std::iter_swap')
def std_swap(I, ref, this, args, node):
    if len(args) != 2:
        return NotImplemented
    p, q = I.as_place(args[0]), I.as_place(args[1])
    t = I.ctypes.get(p) or bare((ref.get('params') or [''])[0])
    tmp = I.new_temp(t)
    I.store(tmp, I.rv(('L', p), t), t, quiet=True)
    a = I.rv(('L', q), t)
    I.store(p, a, t)
    I.store(q, I.rv(('L', tmp), t), t)
    return ('void',)


@fn('std::exchange')
def std_exchange(I, ref, this, args, node):
    p = I.as_place(args[0])
    t = I.ctypes.get(p) or bare(ref.get('ret', ''))
    old = I.rv(('L', p), t)
    if old[0] == 'obj':
        q = I.new_temp(t)
        I.store(q, old, t, quiet=True)
        old = ('obj', q, bare(t))
    I.store(p, I.rv(args[1], t), t)
    return old


# ------------------------------------------------------------------ optional / pair / tuple
def optional_method(I, ref, this, args, node, n):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    if ref.get('k') == 'ctor':
        ct = ref.get('cls', '')
    fs = I.fields_of(ct)
    if not fs:
        return NotImplemented
    vt = fs[1][1]
    hp, vp = (this[0], this[1] + ('#has',)), (this[0], this[1] + ('#val',))
    I.ctypes.setdefault(this, bare(ct))
    I.ctypes.setdefault(vp, bare(vt))

    def setval(a, quiet):
        v = I.rv(a, bare(vt) if a[0] != 'L' else '')
        if v[0] == 'obj' and head(v[2]) == 'std::optional' and head(vt) != 'std::optional':
            # converting constructor from another optional
            sp = v[1]
            I.store(hp, I.load((sp[0], sp[1] + ('#has',)), 'bool', quiet=True), 'bool', quiet=True)
            it = I.fields_of(v[2])[1][1]
            I.store(vp, I.load((sp[0], sp[1] + ('#val',)), it, quiet=True), vt, quiet=True)
        else:
            I.store(hp, TRUE, 'bool', quiet=True)
            I.store(vp, v, vt, quiet=True)
        if not quiet:
            I.note_write(this, ct, v)
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        ps = ref.get('params') or []
        if not args or head(ps[0]) in ('std::nullopt_t',):
            I.store(hp, FALSE, 'bool', quiet=True)
            return ('void',)
        if head(ps[0]) == 'std::in_place_t':
            I.store(hp, TRUE, 'bool', quiet=True)
            if len(args) == 2:
                I.store(vp, I.rv(args[1]), vt, quiet=True)
            return ('void',)
        setval(args[0], True)
        return ('void',)
    if n in ('has_value', 'operator bool'):
        return I.load(hp, 'bool')
    if n in ('value', 'operator*', 'operator->'):
        h = I.load(hp, 'bool', quiet=True)
        I.ev_add('opt_access', place=this, checked=I.decide(I.boolterm(h, 'bool')) is True, method=n)
        if n == 'operator->':
            return ('ptr', vp)
        return ('L', vp)
    if n == 'value_or':
        if I.truth(I.load(hp, 'bool'), 'bool'):
            return I.rv(('L', vp), vt)
        return I.rv(args[0], vt)
    if n == 'reset':
        I.store(hp, FALSE, 'bool', quiet=True)
        I.note_write(this, ct)
        return ('void',)
    if n == 'emplace':
        setval(args[0], False)
        return ('L', vp)
    if n == 'operator=':
        if is_copy(ref):
            return NotImplemented
        ps = ref.get('params') or []
        if head(ps[0]) == 'std::nullopt_t':
            I.store(hp, FALSE, 'bool', quiet=True)
            I.note_write(this, ct)
            return ('L', this)
        setval(args[0], False)
        return ('L', this)
    return NotImplemented


@fn('std::make_optional')
def mkopt(I, ref, this, args, node):
    t = ref.get('ret', '')
    p = I.new_temp(t)
    fs = I.fields_of(t)
    I.store((p[0], ('#has',)), TRUE, 'bool', quiet=True)
    if args:
        I.store((p[0], ('#val',)), I.rv(args[0]), fs[1][1], quiet=True)
    return ('obj', p, bare(t))


def opt_cmp(I, ref, args, op):
    """comparison of an optional with nullopt / a value / an optional"""
    ps = ref.get('params') or []
    hs = [head(p) for p in ps]

    def has(p):
        return I.load((p[0], p[1] + ('#has',)), 'bool', quiet=True)
    neg_ = op == '!='
    if 'std::nullopt_t' in hs:
        o = I.as_place(args[0] if hs[0] == 'std::optional' else args[1])
        r = lnot(I.boolterm(has(o), 'bool'))
        return lnot(r) if neg_ else r
    if hs.count('std::optional') == 2:
        p, q = I.as_place(args[0]), I.as_place(args[1])
        a, b = I.truth(has(p), 'bool'), I.truth(has(q), 'bool')
        if a != b:
            r = FALSE
        elif not a:
            r = TRUE
        else:
            r = eq(T(I, ('L', (p[0], p[1] + ('#val',))), I.fields_of(bare(ps[0]))[1][1]), T(I, ('L', (q[0], q[1] + ('#val',))), I.fields_of(bare(ps[1]))[1][1]))
        return lnot(r) if neg_ else r
    o, x = (args[0], args[1]) if hs[0] == 'std::optional' else (args[1], args[0])
    ot = ps[0] if hs[0] == 'std::optional' else ps[1]
    p = I.as_place(o)
    if not I.truth(has(p), 'bool'):
        r = FALSE
    else:
        r = eq(T(I, ('L', (p[0], p[1] + ('#val',))), I.fields_of(bare(ot))[1][1]), T(I, x))
    return lnot(r) if neg_ else r


def node_method(I, ref, this, args, node, n):
    if I.fields_of(I.ctypes.get(this) or ref.get('cls', '')) is None:
        return NotImplemented
    if n in ('key', 'mapped'):
        f = 'first' if n == 'key' else 'second'
        q = (this[0], this[1] + (f,))
        I.ctypes.setdefault(q, bare(ref['ret']))
        return ('L', q)
    if n == 'empty':
        return I.mem.get((this[0], this[1] + ('#empty',)), FALSE)
    if n == 'operator bool':
        return lnot(I.mem.get((this[0], this[1] + ('#empty',)), FALSE))
    return NotImplemented


def tuple_method(I, ref, this, args, node, n, h):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    if ref.get('k') == 'ctor':
        ct = ref.get('cls', '')
        if is_copy(ref):
            return NotImplemented
        fs = I.fields_of(ct)
        if fs is None:
            return NotImplemented
        I.ctypes[this] = bare(ct)
        if not args:
            I.default_init(this, ct)
            return ('void',)
        if len(args) == len(fs) and not (len(args) == 1 and head((ref.get('params') or [''])[0]) == h):
            for (f, ft), a in zip(fs, args):
                dp = (this[0], this[1] + (f,))
                if is_ref(ft):
                    I.mem[dp] = ('ptr', I.as_place(a, bare(ft)))
                else:
                    I.store(dp, convert_to(I, a, ft), ft, quiet=True)
            return ('void',)
        if len(args) == 1:
            sp = I.as_place(args[0])
            st = I.ctypes.get(sp) or bare((ref.get('params') or [''])[0])
            sfs = I.fields_of(st)
            if sfs and len(sfs) == len(fs):
                for (f, ft), (g, gt) in zip(fs, sfs):
                    q = (sp[0], sp[1] + (g,))
                    if is_ref(gt):
                        v = I.mem.get(q)
                        q = v[1] if v is not None and v[0] == 'ptr' else q
                        gt = bare(gt)
                    I.ctypes.setdefault(q, bare(gt))
                    I.store((this[0], this[1] + (f,)), convert_to(I, ('L', q), ft), ft, quiet=True)
                return ('void',)
        return NotImplemented
    if n == 'operator=' and not is_copy(ref):
        sp = I.as_place(args[0])
        st = I.ctypes.get(sp) or bare((ref.get('params') or [''])[0])
        fs, sfs = I.fields_of(ct), I.fields_of(st)
        if fs and sfs and len(fs) == len(sfs):
            for (f, ft), (g, gt) in zip(fs, sfs):
                q = (sp[0], sp[1] + (g,))
                dp = (this[0], this[1] + (f,))
                I.ctypes.setdefault(q, bare(gt))
                v = I.rv(('L', q), bare(gt))
                if is_ref(ft):
                    r = I.mem.get(dp)
                    if r is not None and r[0] == 'ptr':
                        I.store(r[1], v, bare(ft))
                else:
                    I.store(dp, v, ft)
            return ('L', this)
    return NotImplemented


def convert_to(I, a, ft):
    """value of argument a as an ft (implicit conversions the models know about)"""
    v = I.rv(a, '' if a[0] == 'L' else ft)
    at = I.ctypes.get(a[1], '') if a[0] == 'L' else (v[2] if v[0] == 'obj' else '')
    if v[0] == 'obj' and not I.is_struct(ft):
        h = head(ft)
        if h == 'std::function':
            return ('objfn', v[1], v[2])
        return I.term_of(v)
    sa, sf = split_targs(bare(at)), split_targs(bare(ft))
    if sa[0] in ('std::shared_ptr', 'std::unique_ptr') and sf[0] in ('std::shared_ptr', 'std::unique_ptr') and sa[1] and sf[1]:
        return conv_ptr(I, v, sa[1][0], sf[1][0])
    if v[0] != 'obj' and I.is_struct(ft) and split_targs(bare(ft))[0] != 'std::optional' and bare(at) != bare(ft):
        m = find_ctor(I, ft, [a])
        if m is not None:
            p = I.new_temp(ft)
            I.call_fid(m, p, [a], None)
            return ('obj', p, bare(ft))
    return v


@fn('std::make_pair', 'std::make_tuple', 'std::forward_as_tuple', 'std::tie')
def mktuple(I, ref, this, args, node):
    t = ref.get('ret', '')
    fs = I.fields_of(t)
    if fs is None or len(fs) != len(args):
        return NotImplemented
    p = I.new_temp(t)
    for (f, ft), a in zip(fs, args):
        dp = (p[0], p[1] + (f,))
        if is_ref(ft):
            I.mem[dp] = ('ptr', I.as_place(a, bare(ft)))
        else:
            I.store(dp, convert_to(I, a, ft), ft, quiet=True)
    return ('obj', p, bare(t))


@fn('std::get')
def std_get(I, ref, this, args, node):
    p = I.as_place(args[0])
    t = I.ctypes.get(p) or bare((ref.get('params') or [''])[0])
    fs = I.fields_of(t) or I.fields_of(bare((ref.get('params') or [''])[0]))
    ta = ref.get('targs') or []
    i = None
    if ta and str(ta[0]).rstrip('UL').isdigit():
        i = int(str(ta[0]).rstrip('UL'))
    elif fs:
        for k, (f, ft) in enumerate(fs):
            if bare(ft) == bare(str(ta[0]) if ta else ref.get('ret', '')):
                i = k
    if fs is None or i is None or i >= len(fs):
        return NotImplemented
    f, ft = fs[i]
    q = (p[0], p[1] + (f,))
    if is_ref(ft):
        v = I.mem.get(q)
        return ('L', v[1]) if v is not None and v[0] == 'ptr' else ('L', (('deref', ('s', 'ref:' + show_place(q))), ()))
    I.ctypes.setdefault(q, bare(ft))
    return ('L', q)


# ------------------------------------------------------------------ chrono
def chrono_method(I, ref, this, args, node, n, h):
    ct = ref.get('cls', '')
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        if not args:
            I.store(this, ZERO if node is None or node.get('zinit') or h == 'std::chrono::time_point' else I.fresh('uninit', 'long'), ct, quiet=True)
            return ('void',)
        at = (ref.get('params') or [''])[0]
        v = I.rv(args[0], bare(at))
        if not is_chrono(at):
            v = mul(v, C(period_of(ct)))
        I.store(this, v, ct, quiet=True)
        return ('void',)
    if n in ('max', 'min', 'zero') and (this is None or ref.get('static')):
        if n == 'zero':
            return ZERO
        k = C(2 ** 63 - 1 if n == 'max' else -2 ** 63)
        if rep_of(ct) in FLOATS:
            return ('s', 'chrono_' + n, 'r', '')
        return mul(k, C(period_of(ct)))
    v = I.load(this, ct) if n not in ('operator=',) else None
    if n == 'count':
        return div_real(v, C(period_of(ct)))
    if n == 'time_since_epoch':
        return v
    if n in ('operator+', 'operator-') and not args:
        return neg(v) if n == 'operator-' else v
    if n in ('operator+=', 'operator-='):
        a = I.rv(args[0], bare((ref.get('params') or [''])[0]))
        I.store(this, add(v, a) if n == 'operator+=' else sub(v, a), ct)
        return ('L', this)
    if n in ('operator*=', 'operator/=', 'operator%='):
        a = I.rv(args[0])
        if n == 'operator*=':
            r = mul(v, a)
        elif n == 'operator/=':
            r = dur_div(I, v, a, ct)
        else:
            r = dur_mod(I, v, a if is_chrono((ref.get('params') or [''])[0]) else mul(a, C(period_of(ct))), ct)
        I.store(this, r, ct)
        return ('L', this)
    if n in ('operator++', 'operator--'):
        d = C(period_of(ct) if n == 'operator++' else -period_of(ct))
        I.store(this, add(v, d), ct)
        return v if args else ('L', this)
    if n == 'operator=':
        a = I.rv(args[0], bare((ref.get('params') or [''])[0]))
        I.store(this, a, ct)
        if ref.get('special') == 'moveassign' and args[0][0] == 'L':
            I.ev_add('movefrom', place=args[0][1], t=ct)
        return ('L', this)
    return NotImplemented


def dur_div(I, v, a, ct):
    I.ev_add('div', divisor=a, t=rep_of(ct))
    if rep_of(ct) in FLOATS:
        return div_real(v, a)
    p = C(period_of(ct))
    return mul(p, trunc_t(div_real(div_real(v, p), a)))


def dur_mod(I, v, m, ct):
    """v % m, truncated: v - m*trunc(v/m)"""
    if v[0] == 'u' and v[1] == 'mod' and v[3] == m:
        return v
    if is_c(v) and is_c(m) and m[1]:
        q = abs(v[1]) // abs(m[1])
        q = q if (v[1] < 0) == (m[1] < 0) else -q
        return C(v[1] - q * m[1])
    return sub(v, mul(m, trunc_t(div_real(v, m))))


@fn('std::chrono::duration_cast', 'std::chrono::time_point_cast', 'std::chrono::floor', 'std::chrono::ceil', 'std::chrono::round')
def chrono_cast(I, ref, this, args, node):
    at = (ref.get('params') or [''])[0]
    rt = ref.get('ret', '')
    v = I.rv(args[0], bare(at))
    p = C(period_of(rt))
    if rep_of(rt) in FLOATS and ref['n'].endswith('cast'):
        return v
    x = div_real(v, p)
    if ref['n'].endswith('cast'):
        return mul(p, trunc_t(x))
    if ref['n'] == 'floor':
        return mul(p, floor_t(x))
    if ref['n'] == 'ceil':
        return neg(mul(p, floor_t(neg(x))))
    return mul(p, floor_t(add(x, C(Fr(1, 2)))))


@fn('std::chrono::operator+', 'std::chrono::operator-', 'std::chrono::operator*', 'std::chrono::operator/', 'std::chrono::operator%', 'std::chrono::operator==', 'std::chrono::operator<=>',
    'std::chrono::operator<', 'std::chrono::operator>', 'std::chrono::operator<=', 'std::chrono::operator>=', 'std::chrono::operator!=')
def chrono_op(I, ref, this, args, node):
    ps = ref.get('params') or []
    if this is not None:
        args = [('L', this)] + list(args)
        ps = [ref.get('cls', '')] + list(ps)
    if len(args) != 2:
        return NotImplemented
    op = ref['n'][len('operator'):].strip()
    ta, tb = ps[0], ps[1]
    if not (is_chrono(ta) or is_chrono(tb)):
        if op in ('==', '!=', '<=>', '<', '>', '<=', '>='):
            a, b = T(I, args[0], bare(ta)), T(I, args[1], bare(tb))
            if a[0] == b[0] == 'u' and a[1] == b[1] == 'ymd_of':
                # the calendar keeps the order of the days
                a, b = a[2], b[2]
                return ('cmp3', a, b) if op == '<=>' else cmp_op(op, a, b)
            fs = ('year', 'month', 'day')
            if op in ('==', '!=') and a[0] == b[0] == 'u' and a[1] == b[1] in fs and a[2][0] == b[2][0] == 'u' and a[2][1] == b[2][1] == 'ymd_of':
                # days whose year, month and day are the same are the same day, and the other way round
                x, y = sorted((a[2][2], b[2][2]), key=repr)
                if I.branch(eq(x, y)):
                    r = TRUE
                elif all(I.facts.get(('u', 'same', ('str', f), x, y)) is True for f in fs if f != a[1]):
                    r = FALSE
                else:
                    r = C(I.branch(('u', 'same', ('str', a[1]), x, y)))
                return lnot(r) if op == '!=' else r
            if op in ('==', '!='):
                r = eq(('ord', a), ('ord', b)) if not (is_c(a) and is_c(b)) else eq(a, b)
                return lnot(r) if op == '!=' else r
            if op == '<=>':
                return ('cmp3', ('ord', a), ('ord', b))
            oa, ob = ('ord', a), ('ord', b)
            return {'<': lt(oa, ob), '>': lt(ob, oa), '<=': le(oa, ob), '>=': le(ob, oa)}[op]
        if op == '/':
            a, b = T(I, args[0], bare(ta)), T(I, args[1], bare(tb))
            rt = head(ref.get('ret', ''))
            if rt == 'std::chrono::year_month':
                return ('u', 'ym', a, b)
            if rt == 'std::chrono::year_month_day' and a[0] == 'u' and a[1] == 'ym':
                return ('u', 'ymd', a[2], a[3], b)
        return NotImplemented
    a = I.rv(args[0], bare(ta))
    b = I.rv(args[1], bare(tb))
    if op == '+':
        return add(a, b)
    if op == '-':
        return sub(a, b)
    if op == '*':
        return mul(a, b)
    rt = ref.get('ret', '')
    if op == '/':
        if is_chrono(tb):
            I.ev_add('div', divisor=b, t='long')
            x = div_real(a, b)
            return x if bare(rt) in FLOATS else trunc_t(x)
        return dur_div(I, a, b, rt)
    if op == '%':
        if not is_chrono(tb):
            b = mul(b, C(period_of(rt)))
        return dur_mod(I, a, b, rt)
    if op == '<=>':
        return ('cmp3', a, b)
    return cmp_op(op, a, b)


def cmp_op(op, a, b):
    return {'==': lambda: eq(a, b), '!=': lambda: lnot(eq(a, b)), '<': lambda: lt(a, b), '>': lambda: lt(b, a), '<=': lambda: le(a, b), '>=': lambda: le(b, a)}[op]()


@fn(*['std::operator""' + x for x in ('h', 'min', 's', 'ms', 'us', 'ns')])
def chrono_literal(I, ref, this, args, node):
    if args:
        return NotImplemented
    d = ''.join(x.strip("'") for x in ref.get('targs') or [] if x != "'\\''")
    try:
        return mul(C(int(d, 8 if d[0] == '0' and d[1:].isdigit() else 0)), C(period_of(ref['ret'])))
    except (ValueError, IndexError):
        return NotImplemented


@fn('std::chrono::abs')
def chrono_abs(I, ref, this, args, node):
    return absval(I, I.rv(args[0]))


def absval(I, v):
    if is_c(v):
        return C(abs(v[1]))
    if I.branch(lt(v, ZERO)):
        return neg(v)
    return v


@fn('std::chrono::steady_clock::now', 'std::chrono::system_clock::now', 'std::chrono::high_resolution_clock::now')
def clock_now(I, ref, this, args, node):
    which = 'steady' if 'steady' in ref['sq'] else 'system'
    v = I.fresh('now:' + which, 'long')
    I.ev_add('now', clock=which, val=v)
    prev = getattr(I, 'lastnow', {}).get(which) if hasattr(I, 'lastnow') else None
    return v


def ymd_of(D):
    """calendar date of a day number"""
    if D[0] == 'u' and D[1] == 'days':
        return D[2]
    return ('u', 'ymd_of', D)


def days_of(y):
    if y[0] == 'u' and y[1] == 'ymd_of':
        return y[2]
    return ('u', 'days', y)


DAY = C(86400 * NS)


def cal_method(I, ref, this, args, node, n, h):
    ct = ref.get('cls', '')
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        if not args:
            k = 'default:' if node is None or node.get('zinit') else 'uninit:'
            I.store(this, ('u', k + h) if h == 'std::chrono::year_month_day' else ZERO if k[0] == 'd' else I.fresh('uninit', 'long'), ct, quiet=True)
            return ('void',)
        ps = ref.get('params') or []
        if h == 'std::chrono::year_month_day':
            if len(args) == 3:
                y, m, d = (T(I, a, bare(p)) for a, p in zip(args, ps))
                v = ('u', 'ymd', y, m, d)
                if all(x[0] == 'u' and x[1] == c and x[2] == y[2] for x, c in ((y, 'year'), (m, 'month'), (d, 'day'))):
                    v = y[2]
            elif is_chrono(ps[0]):
                v = ymd_of(div_real(I.rv(args[0], bare(ps[0])), DAY))
            else:
                return NotImplemented
        elif h == 'std::chrono::hh_mm_ss':
            v = ('u', 'hms', I.rv(args[0], bare(ps[0])))
        elif h == 'std::chrono::weekday':
            if is_chrono(ps[0]):
                v = ('u', 'weekday', div_real(I.rv(args[0], bare(ps[0])), DAY))
            else:
                v = I.rv(args[0])
        else:
            v = I.rv(args[0], bare(ps[0]))
        I.store(this, v, ct, quiet=True)
        return ('void',)
    v = I.load(this, ct)
    if h == 'std::chrono::year_month_day':
        if n in ('year', 'month', 'day'):
            if v[0] == 'u' and v[1] == 'ymd':
                return v[2 + ('year', 'month', 'day').index(n)]
            return ('u', n, v)
        if ref.get('k') == 'conv' or n.startswith('operator '):
            d = days_of(v)
            I.ev_add('ymd_to_days', val=v)
            return mul(DAY, d)
        if n == 'ok':
            if v == ('u', 'default:' + h):
                return FALSE
            return TRUE if v[0] == 'u' and v[1] == 'ymd_of' else ('u', 'ok', v)
    if h == 'std::chrono::hh_mm_ss':
        x = v[2] if v[0] == 'u' and v[1] == 'hms' else ('s', show(v) + '.dur', 'i', '')
        if n in ('to_duration', 'operator duration') or ref.get('k') == 'conv':
            return x
        if n == 'is_negative':
            return lt(x, ZERO)
        a = absval(I, x) if n in ('hours', 'minutes', 'seconds', 'subseconds') else None
        if a is not None:
            fh = mul(C(3600 * NS), floor_t(div_real(a, C(3600 * NS))))
            fm = mul(C(60 * NS), floor_t(div_real(a, C(60 * NS))))
            fs = mul(C(NS), floor_t(div_real(a, C(NS))))
            return {'hours': fh, 'minutes': sub(fm, fh), 'seconds': sub(fs, fm), 'subseconds': sub(a, fs)}[n]
    if h in ('std::chrono::year', 'std::chrono::month', 'std::chrono::day'):
        if ref.get('k') == 'conv' or n.startswith('operator '):
            return v if (numeric(v) or v[0] == 's') else ('s', 'num:' + show(v), 'i', '')
        if n == 'ok':
            return ('u', 'ok', v)
    if h == 'std::chrono::weekday':
        if n in ('iso_encoding', 'c_encoding'):
            return ('u', n, v)
    return NotImplemented


# ------------------------------------------------------------------ containers
def cop(I, op, place, ct, old, new, args=(), argp=(), **kw):
    I.ev_add('cop', op=op, place=place, t=ct, old=old, new=new, args=list(args), argp=list(argp), local=not I.shared(place), **kw)


def mutate(I, op, place, ct, old, new, args=(), argp=(), **kw):
    for p in [p for p in I.mem if p[0][0] == 'elem' and p[0][1] == place and not (I.maptheory and keep_elem(op, p, args, kw))]:
        del I.mem[p]
    I.kill_sub(place)
    I.mem[place] = new
    I.ctypes[place] = bare(ct) if ct else I.ctypes.get(place, '')
    I.note_write(place, ct, new, method=op)
    cop(I, op, place, ct, old, new, args, argp, **kw)


def distinct(a, b):
    """two keys that are certainly different"""
    if a[0] == 'c' and b[0] == 'c' or a[0] == 'str' and b[0] == 'str':
        return a != b
    if a[0] == 'u' == b[0] and a[1] == b[1] == 'type_index':
        return a[2] != b[2]
    return False


def keep_elem(op, p, args, kw):
    """elements other than the one concerned keep their value"""
    if p[0][2][0] not in ('find', 'key'):
        return False
    if op == 'insert' and kw.get('inserted'):
        return True
    return op in ('erase_key', 'overwrite') and distinct(p[0][2][1], args[0])


def contains_term(I, c, k):
    """does the map with content c contain k: by the insertions and removals that made it"""
    while I.maptheory and c[0] == 'u':
        if c[1] in ('insert_new', 'put'):
            if c[3] == k:
                return TRUE
        elif c[1] == 'erase':
            if c[3] == k:
                return FALSE
        elif c == EMPTY:
            return FALSE
        else:
            break
        if not distinct(c[3], k):
            break
        c = c[2]
    return ('u', 'contains', c, k)


def elem_at(I, place, ct, pos, val=None):
    p = (('elem', place, pos), ())
    et = I.elem_type(ct)
    if et:
        I.ctypes.setdefault(p, bare(et))
    if val is not None and p not in I.mem and not I.is_struct(et):
        I.mem[p] = val
    return p


def elem_val(I, args, ct, h):
    """term of the element an insertion adds"""
    if len(args) == 1:
        return T(I, args[0])
    et = I.elem_type(ct)
    fs = I.fields_of(et) if et and head(et) in ('std::pair', 'std::tuple') else None
    if fs and len(fs) == len(args) and not any(is_ref(ft) for f, ft in fs):
        q = I.new_temp(et)
        for (f, ft), a in zip(fs, args):
            I.store((q[0], q[1] + (f,)), convert_to(I, a, ft), ft, quiet=True)
        return T(I, ('obj', q, bare(et)))
    return ('u', 'elem') + tuple(T(I, a) for a in args)


def consume(I, ref, args):
    """arguments bound to rvalue references of class type are moved from"""
    ps = ref.get('params') or []
    for a, p in zip(args, ps):
        if p.endswith('&&') and a[0] == 'L' and a[1][0][0] not in ('temp',):
            t = I.ctypes.get(a[1], bare(p))
            if I.is_struct(t) or head(t) in ('std::unique_ptr', 'std::shared_ptr', 'std::basic_string', 'std::vector', 'std::function') or head(t).startswith('std::'):
                if not is_chrono(t):
                    I.moved_from(a[1], t)


def cont_method(I, ref, this, args, node, n, h):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    if ref.get('k') == 'ctor':
        ct = ref.get('cls', '')
        I.ctypes[this] = bare(ct)
        if is_copy(ref):
            return NotImplemented
        ps = ref.get('params') or []
        real = [(a, p) for a, p in zip(args, ps) if head(p) not in ('std::allocator',)]
        if not real or not args:
            I.store(this, EMPTY, ct, quiet=True)
            return ('void',)
        a0, p0 = real[0]
        if head(p0) == 'std::initializer_list':
            v = I.rv(a0)
            I.store(this, v if v[0] == 'initlist' else v, ct, quiet=True)
            return ('void',)
        if len(real) >= 2 and (p0.endswith('*') or head(p0) in ('__gnu_cxx::__normal_iterator',) or 'iterator' in head(p0)):
            a, b = I.rv(real[0][0]), I.rv(real[1][0])
            v = ('u', 'range', a, b)
            I.store(this, v, ct, quiet=True)
            cop(I, 'from_range', this, ct, EMPTY, v, [a, b])
            return ('void',)
        if bare(p0) in INTS:
            nn = I.rv(a0, p0)
            I.store(this, ('u', 'resize', ('u', 'filled', T(I, args[1]) if len(real) > 1 else ZERO), nn), ct, quiet=True)
            return ('void',)
        I.store(this, ('u', 'ctor:' + h) + tuple(T(I, a) for a, p in real), ct, quiet=True)
        return ('void',)
    if this is None:
        return NotImplemented
    if is_copy(ref) and n == 'operator=':
        sp = I.as_place(args[0], ct)
        v = I.load(sp, ct)
        old = I.load(this, ct, quiet=True)
        mutate(I, 'assign', this, ct, old, v, [v])
        if ref.get('special') == 'moveassign':
            I.mem[sp] = EMPTY if False else ('moved', v)
        return ('L', this)
    c = I.load(this, ct, quiet=True)
    et = I.elem_type(ct)

    def rd():
        I.note_read(this, ct, method=n)
    if n in ('size', 'length'):
        rd()
        return size_of(c)
    if n == 'empty':
        rd()
        return empty_term(c)
    if n in ('capacity', 'max_size', 'bucket_count', 'load_factor'):
        rd()
        return ('u', n, c)
    if n in ('reserve', 'shrink_to_fit', 'rehash'):
        I.note_write(this, ct, method=n)
        return ('void',)
    if n in ('begin', 'cbegin', 'rbegin', 'crbegin'):
        rd()
        return ('it', this, c, ('begin',) if n in ('begin', 'cbegin') else ('rbegin',))
    if n in ('end', 'cend', 'rend', 'crend'):
        rd()
        return ('it', this, c, ('end',) if n in ('end', 'cend') else ('rend',))
    if n in ('front', 'back', 'top'):
        rd()
        cop(I, n, this, ct, c, c, checked=I.decide(empty_term(c)) is False)
        v = None
        if c[0] == 'u' and c[1] == 'push_back' and (n == 'back' or c[2] == EMPTY):
            v = c[3]
        return ('L', elem_at(I, this, ct, (n, c), v))
    if n in ('at', 'operator[]') and h in MAPS:
        k = T(I, args[0])
        if n == 'operator[]' and I.maptheory:
            if not I.branch(contains_term(I, c, k)):
                vt = split_targs(bare(ct))[1][1]
                v = default_value(I, vt)
                mutate(I, 'insert', this, ct, c, ('u', 'insert_new', c, k, v), [k, v], inserted=True)
                I.store((('elem', this, ('find', k)), ('second',)), v, vt, quiet=True)
            p = (('elem', this, ('find', k)), ('second',))
            I.ctypes.setdefault((p[0], ()), bare(et))
            I.ctypes.setdefault(p, bare(split_targs(bare(ct))[1][1]))
            return ('L', p)
        if n == 'operator[]':
            new = ('u', 'ensure', c, k)
            mutate(I, 'ensure', this, ct, c, new, [k])
            c = new
        else:
            rd()
            cop(I, 'at', this, ct, c, c, [k])
        p = (('elem', this, ('find' if I.maptheory else 'key', k)), ('second',))
        I.ctypes.setdefault((p[0], ()), bare(et))
        I.ctypes.setdefault(p, bare(split_targs(bare(ct))[1][1]))
        return ('L', p)
    if n in ('at', 'operator[]'):
        rd()
        i = I.rv(args[0], 'unsigned long')
        I.ev_add('index', size=size_of(c), index=i, obj=this, checkedat=(n == 'at'))
        v = None
        if c[0] == 'initlist' and is_c(i) and int(i[1]) < len(c[1]):
            e = c[1][int(i[1])]
            return e if e[0] == 'L' else scalar_place(I, e, et)
        return ('L', elem_at(I, this, ct, ('idx', i, c), v))
    if n == 'data':
        rd()
        return ('ptr', (('elem', this, ('idx', ZERO, c)), ()))
    if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'emplace') and h in SEQ and not (n == 'emplace' and h in ('std::vector', 'std::deque', 'std::list')):
        end = 'push_front' if 'front' in n else 'push_back'
        if h in ('std::stack', 'std::priority_queue'):
            end = 'push'
        th = head(et) in ('std::thread', 'std::jthread')
        x = elem_val(I, args, ct, h)
        new = ('u', end, c, x)
        if th and args and (I.rv(args[0])[0] in ('closure', 'fnptr', 'bind', 'memfn')):
            p = (('elem', this, ('spawned', I.nfresh)), ())
            I.ctypes[p] = bare(et)
            spawn(I, p, args, et)
        mutate(I, end, this, ct, c, new, [x], args, method=n, rvalue=bool(ref.get('params') and ref['params'][0].endswith('&&')))
        place = elem_at(I, this, ct, ('last', new))
        # construct the element in place (a constructor of a library type may have effects)
        if I.is_struct(et) and len(args) == 1:
            v = convert_to(I, args[0], et)
            if v[0] == 'obj':
                I.store(place, v, et, quiet=True)
        elif not I.is_struct(et) and len(args) == 1:
            I.mem[place] = convert_to(I, args[0], et)
        consume(I, ref, args)
        if n.startswith('emplace'):
            return ('L', place)
        return ('void',)
    if n in ('pop_back', 'pop_front', 'pop'):
        end = n
        if n == 'pop':
            end = 'pop_front' if h == 'std::queue' else 'pop'
        checked = I.decide(empty_term(c)) is False
        new = ('u', 'pop_front' if end == 'pop' else end, c)
        mutate(I, end, this, ct, c, new, checked=checked)
        return ('void',)
    if n == 'clear':
        mutate(I, 'clear', this, ct, c, EMPTY)
        return ('void',)
    if n == 'resize':
        nn = I.rv(args[0], 'unsigned long')
        mutate(I, 'resize', this, ct, c, ('u', 'resize', c, nn), [nn])
        return ('void',)
    if n == 'swap':
        q = I.as_place(args[0])
        qt = I.ctypes.get(q, ct)
        cq = I.load(q, qt, quiet=True)
        mutate(I, 'assign', this, ct, c, cq, [cq], how='swap')
        mutate(I, 'assign', q, qt, cq, c, [c], how='swap')
        return ('void',)
    if n == 'assign':
        v = ('u', 'assign') + tuple(T(I, a) for a in args)
        mutate(I, 'assign', this, ct, c, v, list(v[2:]))
        return ('void',)
    if n == 'operator=':
        v = T(I, args[0])
        mutate(I, 'assign', this, ct, c, v, [v])
        return ('L', this)
    if h in MAPS | SETS and n in ('contains', 'count'):
        rd()
        k = T(I, args[0])
        cop(I, 'contains', this, ct, c, c, [k])
        r = contains_term(I, c, k)
        return C(1 if I.branch(r) else 0) if I.maptheory and n == 'count' and 'multi' not in h else r
    if h in MAPS | SETS and n == 'find':
        rd()
        k = T(I, args[0])
        cop(I, 'find', this, ct, c, c, [k])
        if I.branch(contains_term(I, c, k)):
            return ('it', this, c, ('find', k))
        return ('it', this, c, ('end',))
    if n in ('lower_bound', 'upper_bound'):
        rd()
        k = T(I, args[0])
        cop(I, n, this, ct, c, c, [k])
        return ('it', this, c, (n, k))
    if n == 'equal_range':
        rd()
        k = T(I, args[0])
        t = ref.get('ret', '')
        p = I.new_temp(t)
        I.mem[(p[0], ('first',))] = ('it', this, c, ('lower_bound', k))
        I.mem[(p[0], ('second',))] = ('it', this, c, ('upper_bound', k))
        cop(I, n, this, ct, c, c, [k])
        return ('obj', p, bare(t))
    if h in MAPS | SETS and n in ('emplace', 'insert', 'try_emplace', 'insert_or_assign', 'emplace_hint'):
        return map_insert(I, ref, this, args, node, n, h, ct, c, et)
    if h in SEQ and n in ('insert', 'emplace'):
        pos = I.rv(args[0])
        x = tuple(T(I, a) for a in args[1:])
        where = 'push_back' if pos[0] == 'it' and pos[3] == ('end',) and len(args) == 2 else 'insert'
        new = ('u', 'push_back', c, x[0]) if where == 'push_back' else ('u', 'insert', c, pos) + x
        mutate(I, where, this, ct, c, new, list(x) if where == 'push_back' else [pos] + list(x), args[1:])
        return ('it', this, new, ('elem', I.fresh('ins')))
    if n == 'erase':
        return cont_erase(I, ref, this, args, node, h, ct, c)
    if n == 'merge':
        q = I.as_place(args[0])
        qt = I.ctypes.get(q, ct)
        cq = I.load(q, qt, quiet=True)
        mutate(I, 'merge', this, ct, c, ('u', 'merge', c, cq), [cq], src=q)
        mutate(I, 'clear', q, qt, cq, EMPTY if h in ('std::multimap', 'std::multiset', 'std::unordered_multimap') else ('u', 'merge_rest', cq, c), how='merge')
        return ('void',)
    if n == 'extract':
        a0 = I.rv(args[0])
        fs = I.fields_of(ref['ret'])
        if a0[0] == 'it' and fs and len(fs) == 2:
            q = I.new_temp(ref['ret'])
            et = I.elem_type(ct)
            ep = elem_at(I, this, ct, a0[3])
            for (f, ft), (g, gt) in zip(fs, I.fields_of(et)):
                sp = (ep[0], ep[1] + (g,))
                I.ctypes.setdefault(sp, bare(ft))
                I.store((q[0], q[1] + (f,)), I.rv(('L', sp), ft), ft, quiet=True)
            mutate(I, 'erase_it', this, ct, c, ('u', 'erase1', c, a0), [a0], how='extract')
            return ('obj', q, bare(ref['ret']))
        k = T(I, args[0])
        mutate(I, 'erase', this, ct, c, ('u', 'erase', c, k), [k], how='extract')
        return I.ret_fresh(ref, 'node')
    return NotImplemented


def map_insert(I, ref, this, args, node, n, h, ct, c, et):
    ps = ref.get('params') or []
    a = list(args)
    if n == 'emplace_hint':
        a = a[1:]
    kt, vt = (split_targs(bare(ct))[1] + ['', ''])[:2]
    multi = 'multi' in h
    if len(a) == 1 and h in MAPS and n == 'try_emplace':
        ks, vs = a[0], None
    elif len(a) == 1 and h in MAPS:
        p = I.as_place(a[0])
        pt = I.ctypes.get(p, '')
        fs = I.fields_of(pt)
        if fs:
            ks, vs = ('L', (p[0], p[1] + (fs[0][0],))), ('L', (p[0], p[1] + (fs[1][0],)))
            I.ctypes.setdefault(ks[1], bare(fs[0][1]))
            I.ctypes.setdefault(vs[1], bare(fs[1][1]))
        else:
            # opaque node
            x = T(I, a[0])
            new = ('u', 'minsert', c, x, x)
            mutate(I, 'insert', this, ct, c, new, [x, x])
            return I.ret_fresh(ref, 'insert')
    elif h in MAPS:
        ks, vs = a[0], a[1] if len(a) > 1 else None
    else:
        ks, vs = a[0], None
    k = T(I, ks)
    if vs is not None and h in MAPS and len(a) <= 2:
        v = convert_to(I, vs, vt)
        vterm = I.term_of(v) if v[0] == 'obj' else v
    elif vs is not None:
        vterm = ('u', 'elem') + tuple(T(I, x) for x in a[1:])
        v = vterm
    elif h in MAPS:
        v = vterm = default_value(I, vt)
    else:
        v = vterm = k
    if multi:
        new = ('u', 'minsert', c, k, vterm)
        mutate(I, 'insert', this, ct, c, new, [k, vterm], [ks, vs], multi=True)
        consume(I, ref, args)
        pos = ('ins', I.nfresh)
        I.nfresh += 1
        it = ('it', this, new, ('elem', C(I.nfresh)))
        return it
    had = contains_term(I, c, k)
    inserted = not I.branch(had)
    if inserted:
        new = ('u', 'insert_new', c, k, vterm)
        mutate(I, 'insert', this, ct, c, new, [k, vterm], [ks, vs], inserted=True)
    elif n == 'insert_or_assign':
        new = ('u', 'put', c, k, vterm)
        mutate(I, 'overwrite', this, ct, c, new, [k, vterm], [ks, vs], inserted=False)
    else:
        new = c
        I.note_write(this, ct, new, method=n)
        cop(I, 'insert', this, ct, c, c, [k, vterm], [ks, vs], inserted=False)
    if inserted or n != 'try_emplace':
        consume(I, ref, args)
    if I.maptheory and h in MAPS and (inserted or n == 'insert_or_assign'):
        fs = I.fields_of(et) if et else None
        ep = elem_at(I, this, ct, ('find', k))
        if fs:
            I.mem[(ep[0], ep[1] + (fs[0][0],))] = k
            I.store((ep[0], ep[1] + (fs[1][0],)), v, fs[1][1], quiet=True)
    it = ('it', this, new, ('find', k))
    t = ref.get('ret', '')
    if head(t) == 'std::pair':
        p = I.new_temp(t)
        I.mem[(p[0], ('first',))] = it
        I.mem[(p[0], ('second',))] = C(1 if inserted else 0)
        return ('obj', p, bare(t))
    return it


def cont_erase(I, ref, this, args, node, h, ct, c):
    a = [I.rv(x) for x in args]
    if len(a) == 1 and a[0][0] == 'it' and I.maptheory and a[0][3][0] == 'find':
        mutate(I, 'erase_key', this, ct, c, ('u', 'erase', c, a[0][3][1]), [a[0][3][1]])
        I.nfresh += 1
        return ('it', this, I.mem[this], ('loop', 'after_erase#%d' % I.nfresh))
    if len(a) == 1 and a[0][0] == 'it':
        mutate(I, 'erase_it', this, ct, c, ('u', 'erase1', c, a[0]), [a[0]])
        I.nfresh += 1
        return ('it', this, I.mem[this], ('loop', 'after_erase#%d' % I.nfresh))
    if len(a) == 2 and a[0][0] == 'it' and a[1][0] == 'it' and a[0][3] == ('begin',) and a[1][3] == ('end',) and a[0][1] == this == a[1][1]:
        mutate(I, 'clear', this, ct, c, EMPTY, a)
        return ('it', this, EMPTY, ('end',))
    if len(a) == 2:
        mutate(I, 'erase_range', this, ct, c, ('u', 'erase_range', c, a[0], a[1]), a)
        I.nfresh += 1
        return ('it', this, I.mem[this], ('loop', 'after_erase#%d' % I.nfresh))
    k = T(I, args[0])
    had = C(1 if I.branch(contains_term(I, c, k)) else 0) if I.maptheory and 'multi' not in h else None
    mutate(I, 'erase_key', this, ct, c, ('u', 'erase', c, k), [k])
    if had is not None:
        return had
    return ('u', 'bool2int', contains_term(I, c, k)) if 'multi' not in h else ('u', 'count', c, k)


# generic algorithms over a range with a callable ---------------------------------------------------------------

def gen_elem(I, it, tag):
    """generic element of the range starting at it"""
    I.nfresh += 1
    if it[0] == 'it':
        p = (('elem', it[1], ('generic', '%s#%d' % (tag, I.nfresh), it[2])), ())
        et = I.elem_type(I.ctypes.get(it[1], ''))
        if et:
            I.ctypes.setdefault(p, bare(et))
        return p, it[1], it[2]
    p = (('elem', (('deref', it), ()), ('generic', '%s#%d' % (tag, I.nfresh), it)), ())
    return p, None, it


def call_pred(I, f, elems):
    r = I.call_value(f, elems, {'t': 'bool'})
    return I.truth(r, 'bool')


def search(I, ref, it0, it1, f, what, cplace, ct):
    """find_if-like: returns iterator; the exhausted case records that no element satisfies the predicate"""
    from absint import PathEnd
    I.note_read(cplace, ct, method=what) if cplace is not None else None
    lid = (I.frames[-1].fn['sq'], I.curline)
    nb = len(I.events)
    # what a non-matching element looks like
    iters = probe_calls(I, f, it0, what)
    e0 = I.ev_add('loop_head', loop=lid, meta=(what, cplace, it0[2] if it0[0] == 'it' else None))
    if I.choose(2) == 0:
        p, cp, cc = gen_elem(I, it0, what)
        full = it0[0] == 'it' and it0[3] == ('begin',)
        if full and I.decide(empty_term(it0[2])) is True:
            raise PathEnd('infeasible')
        if full:
            I.facts[empty_term(it0[2])] = False
        I.loopstack.append((lid, 'g'))
        try:
            r = call_pred(I, f, [('L', p)])
        finally:
            I.loopstack.pop()
        if not r:
            raise PathEnd('infeasible')
        I.ev_add('loop_break', loop=lid, meta=(what, cplace, it0[2] if it0[0] == 'it' else None), elem=p)
        return ('it', it0[1], it0[2], p[0][2]) if it0[0] == 'it' else ('ptr', p)
    I.ev_add('loop_exit', loop=lid, meta=(what, cplace, it0[2] if it0[0] == 'it' else None), iters=[x for x in iters if x[2] is False])
    return it1


def probe_calls(I, f, it0, what):
    """facts and outcome of applying f to a generic element, without keeping the effects"""
    snap = I.snapshot()
    out = []

    def once():
        from absint import CxxThrow, PathEnd, CxxReturn
        I.restore(snap)
        f0 = len(I.facts)
        ev0 = len(I.events)
        p, _, _ = gen_elem(I, it0, what)
        try:
            r = I.call_value(f, [('L', p)], {'t': 'bool'})
            t = I.boolterm(r, 'bool') if r[0] != 'void' else None
            d = None
            if t is not None:
                d = I.truth(r, 'bool')
            out.append((list(I.facts.items())[f0:], list(I.events[ev0:]), d))
        except (CxxThrow, PathEnd):
            pass
    I.explore(once)
    I.restore(snap)
    return out


def range_args(I, ref, args):
    """(it0, it1, rest, container place) for both iterator-pair and range algorithms"""
    ps = ref.get('params') or []
    if 'ranges' in ref['sq'] or (args and head((ps or [''])[0]) in CONT):
        p = I.as_place(args[0])
        if head(I.ctypes.get(p, '')) == 'std::array' and I.fields_of(I.ctypes[p]) is not None:
            return tuple(('ptr', (p[0], p[1] + (('arr', k),))) for k in (0, len(I.fields_of(I.ctypes[p])))) + (args[1:], None)
        return mk_it(I, p, ('begin',)), mk_it(I, p, ('end',)), args[1:], p
    a, b = I.rv(args[0]), I.rv(args[1])
    return a, b, args[2:], a[1] if a[0] == 'it' else None


def arr_span(I, it0, it1):
    """places between two iterators into one array of known elements"""
    if it0[0] != 'ptr' or it1[0] != 'ptr':
        return None
    (r, p), (s, q) = it0[1], it1[1]
    if not p or not q or (r, p[:-1]) != (s, q[:-1]) or not (isinstance(p[-1], tuple) and isinstance(q[-1], tuple) and p[-1][0] == q[-1][0] == 'arr'):
        return None
    fs = I.fields_of(I.ctypes.get((r, p[:-1]), ''))
    if fs is None:
        return None
    out = []
    for f, ft in fs[p[-1][1]:q[-1][1]]:
        e = (r, p[:-1] + (f,))
        I.ctypes.setdefault(e, bare(ft))
        out.append(e)
    return out


def is_full(it0, it1):
    return it0[0] == 'it' and it1[0] == 'it' and it0[3] == ('begin',) and it1[3] == ('end',)


@fn('std::find_if', 'std::ranges::find_if', 'std::find_if_not', 'std::ranges::find_if_not', 'std::ranges::__find_if_fn::operator()', 'std::ranges::__find_if_not_fn::operator()')
def find_if(I, ref, this, args, node):
    it0, it1, rest, cp = range_args(I, ref, args)
    f = wrap_not(I, I.rv(rest[0]), 'not' in ref['sq'])
    cop(I, 'search', cp, I.ctypes.get(cp, ''), it0[2] if it0[0] == 'it' else it0, None, [it0, it1], full=is_full(it0, it1)) if cp else None
    return search(I, ref, it0, it1, f, 'find_if', cp, I.ctypes.get(cp, '') if cp else '')


def wrap_not(I, f, inv):
    if f[0] == 'obj':
        pass
    return ('notfn', f) if inv else f


def _search_bool(I, ref, args, inv_pred, found, what):
    it0, it1, rest, cp = range_args(I, ref, args)
    f = I.rv(rest[0])
    xs = arr_span(I, it0, it1)
    if xs is not None:
        for x in xs:
            if call_pred(I, f, [('L', x)]) != inv_pred:
                return C(found)
        return C(1 - found)
    cop(I, 'search', cp, I.ctypes.get(cp, ''), it0[2] if it0[0] == 'it' else it0, None, [it0, it1], full=is_full(it0, it1)) if cp else None
    r = search(I, ref, it0, it1, wrap_not(I, f, inv_pred), what, cp, I.ctypes.get(cp, '') if cp else '')
    return C(found if r != it1 else 1 - found)


@fn('std::any_of', 'std::ranges::__any_of_fn::operator()')
def any_of(I, ref, this, args, node):
    return _search_bool(I, ref, args, False, 1, 'any_of')


@fn('std::none_of', 'std::ranges::__none_of_fn::operator()')
def none_of(I, ref, this, args, node):
    return _search_bool(I, ref, args, False, 0, 'none_of')


@fn('std::all_of', 'std::ranges::__all_of_fn::operator()')
def all_of(I, ref, this, args, node):
    return _search_bool(I, ref, args, True, 0, 'all_of')


@fn('std::find', 'std::ranges::__find_fn::operator()')
def std_find(I, ref, this, args, node):
    it0, it1, rest, cp = range_args(I, ref, args)
    x = T(I, rest[0])
    if I.branch(('u', 'has_elem', it0, it1, x)):
        if it0[0] == 'it':
            p = ('it', it0[1], it0[2], ('elem', x))
            q = it_place(I, p)
            I.mem[q] = x
            return p
        return I.fresh('found')
    return it1


@fn('std::count_if', 'std::ranges::__count_if_fn::operator()')
def count_if(I, ref, this, args, node):
    it0, it1, rest, cp = range_args(I, ref, args)
    f = I.rv(rest[0])
    xs = arr_span(I, it0, it1)
    if xs is not None:
        return C(sum(1 for x in xs if call_pred(I, f, [('L', x)])))
    r = search(I, ref, it0, it1, f, 'count_if', cp, I.ctypes.get(cp, '') if cp else '')
    if r == it1:
        return ZERO
    v = I.fresh('count', 'unsigned long')
    I.facts[eq(v, ZERO)] = False
    return v


@fn('std::for_each', 'std::ranges::__for_each_fn::operator()')
def for_each(I, ref, this, args, node):
    it0, it1, rest, cp = range_args(I, ref, args)
    f = I.rv(rest[0])
    xs = arr_span(I, it0, it1)
    if xs is not None:
        for x in xs:
            I.call_value(f, [('L', x)], {'t': 'void'})
        return f
    if cp is not None and is_full(it0, it1):
        I.range_loop(node or {'l': I.curline}, cp, I.ctypes.get(cp, ''), lambda e: I.call_value(f, [e], {'t': 'void'}), what='for_each')
        return f
    # a sub-range: still a generic element
    p, _, _ = gen_elem(I, it0, 'for_each')
    if I.choose(2) == 0:
        I.call_value(f, [('L', p)], {'t': 'void'})
    return f


@fn('std::erase_if')
def erase_if(I, ref, this, args, node):
    from absint import PathEnd
    cp = I.as_place(args[0])
    ct = I.ctypes.get(cp) or bare((ref.get('params') or [''])[0])
    I.ctypes.setdefault(cp, ct)
    f = I.rv(args[1])
    c = I.load(cp, ct, quiet=True)
    it0 = ('it', cp, c, ('begin',))
    outs = probe_calls(I, f, it0, 'erase_if')
    erased = I.choose(2) == 0
    if erased and I.decide(empty_term(c)) is True:
        raise PathEnd('infeasible')
    if erased:
        I.facts[empty_term(c)] = False
    new = ('u', 'erase_if', c, f if f[0] == 'closure' else ('s', 'pred')) if erased else c
    mutate(I, 'erase_if', cp, ct, c, new, [], erased=erased, outcomes=outs, pred=f, ckind=head(ct))
    if not erased:
        return ZERO
    v = I.fresh('erased', 'unsigned long')
    I.facts[lt(ZERO, v)] = True
    I.facts[eq(v, ZERO)] = False
    return v


@fn('std::erase')
def std_erase(I, ref, this, args, node):
    cp = I.as_place(args[0])
    ct = I.ctypes.get(cp) or bare((ref.get('params') or [''])[0])
    c = I.load(cp, ct, quiet=True)
    mutate(I, 'erase_value', cp, ct, c, ('u', 'erase_value', c, T(I, args[1])), [T(I, args[1])])
    return I.fresh('erased', 'unsigned long')


@fn('std::remove_if')
def remove_if(I, ref, this, args, node):
    a = I.rv(args[0])
    f = I.rv(args[2])
    if a[0] != 'it':
        return NotImplemented
    cp = a[1]
    ct = I.ctypes.get(cp, '')
    outs = probe_calls(I, f, a, 'remove_if')
    mutate(I, 'remove_if', cp, ct, a[2], ('u', 'removed', a[2]), [], outcomes=outs, pred=f)
    I.nfresh += 1
    return ('it', cp, I.mem[cp], ('loop', 'removed#%d' % I.nfresh))


@fn('std::next', 'std::prev', 'std::ranges::__next_fn::operator()')
def std_next(I, ref, this, args, node):
    a = I.rv(args[0])
    d = I.rv(args[1], 'long') if len(args) > 1 else ONE
    if a[0] != 'it':
        return NotImplemented
    return it_adv(a, neg(d) if 'prev' in ref['n'] else d)


@fn('std::advance')
def std_advance(I, ref, this, args, node):
    p = I.as_place(args[0])
    a = I.load(p, I.ctypes.get(p, ''), quiet=True)
    if a[0] != 'it':
        return NotImplemented
    I.mem[p] = it_adv(a, I.rv(args[1], 'long'))
    return ('void',)


@fn('std::distance')
def std_distance(I, ref, this, args, node):
    a, b = I.rv(args[0]), I.rv(args[1])
    return it_binop(I, '-', b, a) if a[0] == 'it' and b[0] == 'it' else ('u', 'distance', a, b)


@fn('std::begin', 'std::cbegin', 'std::ranges::__cust_access::_Begin::operator()')
def std_begin(I, ref, this, args, node):
    return mk_it(I, I.as_place(args[0]), ('begin',))


@fn('std::end', 'std::cend', 'std::ranges::__cust_access::_End::operator()')
def std_end(I, ref, this, args, node):
    return mk_it(I, I.as_place(args[0]), ('end',))


@fn('std::size', 'std::ssize')
def std_size(I, ref, this, args, node):
    return size_of(T(I, args[0]))


@fn('std::empty')
def std_empty(I, ref, this, args, node):
    return empty_term(T(I, args[0]))


def iter_method(I, ref, this, args, node, n):
    if ref.get('k') == 'ctor':
        if args and len(args) == 1:
            v = I.rv(args[0])
            I.store(this, v, ref.get('cls', ''), quiet=True)
            return ('void',)
        return NotImplemented
    v = I.load(this, I.ctypes.get(this, ''), quiet=True)
    if n == 'operator=':
        I.store(this, I.rv(args[0]), ref.get('cls', ''))
        return ('L', this)
    if v[0] not in ('it', 'ptr', 's', 'u'):
        return NotImplemented
    if n == 'operator*':
        q = I.deref(v, bare(ref.get('ret', '')))
        I.ctypes.setdefault(q, bare(ref.get('ret', '')))
        if v[0] == 'it':
            I.ev_add('it_deref', it=v)
        return ('L', q)
    if n in ('operator->', 'base'):
        if v[0] == 'it' and n == 'operator->':
            q = I.deref(v)
            rt = bare(ref.get('ret', ''))
            if rt.endswith('*'):
                I.ctypes.setdefault(q, bare(rt[:-1]))
            I.ev_add('it_deref', it=v)
            return ('ptr', q)
        return v
    if n in ('operator++', 'operator--'):
        nv = it_adv(v, ONE if n == 'operator++' else C(-1)) if v[0] == 'it' else ('u', n, v)
        I.store(this, nv, ref.get('cls', ''), quiet=not I.interesting(this))
        return v if args else ('L', this)
    if n in ('operator+', 'operator-') and args:
        return it_binop(I, n[8:], v, I.rv(args[0]))
    if n in ('operator+=', 'operator-=') and args:
        d = I.rv(args[0], 'long')
        I.store(this, it_adv(v, d if n == 'operator+=' else neg(d)), ref.get('cls', ''))
        return ('L', this)
    if n == 'operator[]':
        return ('L', I.deref(it_adv(v, I.rv(args[0], 'long'))))
    if n == 'operator==':
        return it_eq(I, v, I.rv(args[0]))
    return NotImplemented


@fn('std::operator==', 'std::operator!=', '__gnu_cxx::operator==', '__gnu_cxx::operator!=', 'std::__detail::operator==', 'std::__detail::operator!=', 'std::operator<', 'std::operator>',
    'std::operator<=', 'std::operator>=', 'std::operator<=>', '__gnu_cxx::operator-', '__gnu_cxx::operator+', '__gnu_cxx::operator<=>', 'std::rel_ops::operator!=')
def std_cmp(I, ref, this, args, node):
    ps = list(ref.get('params') or [])
    if this is not None:
        args = [('L', this)] + list(args)
        ps = [ref.get('cls', '')] + ps
    if len(args) != 2:
        return NotImplemented
    op = ref['n'][len('operator'):].strip()
    hs = [head(p) for p in ps]
    if 'std::optional' in hs and op in ('==', '!='):
        return opt_cmp(I, ref, args, op)
    if hs[0] in ('std::tuple', 'std::pair') and hs[0] == hs[1] and op in ('==', '!=', '<', '>', '<=', '>=', '<=>'):
        xs, ys = tuple_vals(I, args[0], ps[0]), tuple_vals(I, args[1], ps[1])
        if xs is not None and ys is not None and len(xs) == len(ys):
            if op in ('==', '!='):
                for x, y in zip(xs, ys):
                    if not I.branch(eq(x, y)):
                        return C(op == '!=' and 1 or 0)
                return C(op == '==' and 1 or 0)
            if all(numeric(x) and numeric(y) for x, y in zip(xs, ys)):
                r = ('cmp3', ZERO, ZERO)
                for x, y in zip(xs, ys):
                    if not I.branch(eq(x, y)):
                        r = ('cmp3', x, y)
                        break
                return r if op == '<=>' else cmp_op(op, r[1], r[2])
    a = I.rv(args[0], bare(ps[0]) if args[0][0] != 'L' else '')
    if a[0] == 'cmp3':
        return cmp_op(op, a[1], a[2]) if op != '<=>' else a
    b = I.rv(args[1], bare(ps[1]) if args[1][0] != 'L' else '')
    if b[0] == 'cmp3':
        return cmp_op({'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}[op], b[1], b[2])
    if a[0] == 'it' or b[0] == 'it':
        return it_binop(I, op, a, b)
    if hs[0] in ('std::nullptr_t',):
        a = NULL
    if hs[1] in ('std::nullptr_t',):
        b = NULL
    arr = hs[0] in ('std::array',)
    a, b = I.term_of(a), I.term_of(b)
    if hs[0] in STRS or hs[1] in STRS:
        a, b = unwrap_str(a), unwrap_str(b)
    if op in ('==', '!='):
        if arr:
            r = eq(('ord', a), ('ord', b))
        elif (a[0] == 'agg' or b[0] == 'agg') and a != b:
            r = agg_eq(I, a, b)
        else:
            r = eq(a, b)
        return lnot(r) if op == '!=' else r
    if op in ('<', '>', '<=', '>=', '<=>'):
        if a[0] in ('cmp3',):
            return NotImplemented
        oa, ob = (a, b) if (numeric(a) and numeric(b)) else (('ord', a), ('ord', b))
        if op == '<=>':
            return ('cmp3', oa, ob)
        return cmp_op(op, oa, ob)
    return NotImplemented


def tuple_vals(I, a, t):
    """values of the components, those of references included; None unless they are plain values"""
    p = I.as_place(a, bare(t))
    fs = I.fields_of(I.ctypes.get(p) or t) or I.fields_of(t)
    if fs is None:
        return None
    out = []
    for f, ft in fs:
        q = (p[0], p[1] + (f,))
        if is_ref(ft):
            v = I.mem.get(q)
            if v is None or v[0] != 'ptr':
                return None
            q = v[1]
        if I.is_struct(bare(ft)):
            return None
        out.append(I.load(q, bare(ft)))
    return out


def unwrap_str(v):
    return v


def agg_eq(I, a, b):
    if a[0] == 'agg' and b[0] == 'agg' and len(a[2]) == len(b[2]):
        for (f, x), (g, y) in zip(a[2], b[2]):
            if x[0] == 'agg':
                r = agg_eq(I, x, y)
            else:
                r = eq(x, y)
            if not I.branch(r):
                return FALSE
        return TRUE
    return eq(a, b)


def array_method(I, ref, this, args, node, n):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    fs = I.fields_of(ct) or I.fields_of(ref.get('cls', ''))
    if ref.get('k') == 'ctor' or is_copy(ref):
        return NotImplemented
    if fs is None:
        return NotImplemented
    if n in ('size', 'max_size'):
        return C(len(fs))
    if n == 'empty':
        return C(0 if fs else 1)
    if n in ('operator[]', 'at'):
        i = I.rv(args[0], 'unsigned long')
        I.ev_add('index', size=C(len(fs)), index=i, obj=this, checkedat=(n == 'at'))
        if is_c(i) and 0 <= i[1] < len(fs):
            q = (this[0], this[1] + (fs[int(i[1])][0],))
        else:
            q = (this[0], this[1] + (('ix', i),))
        I.ctypes.setdefault(q, bare(fs[0][1]))
        return ('L', q)
    if n in ('front', 'back'):
        q = (this[0], this[1] + (fs[0 if n == 'front' else -1][0],))
        I.ctypes.setdefault(q, bare(fs[0][1]))
        return ('L', q)
    if n == 'data':
        return ('ptr', (this[0], this[1] + (('arr', 0),)))
    if n in ('begin', 'cbegin'):
        return ('ptr', (this[0], this[1] + (('arr', 0),)))
    if n in ('end', 'cend'):
        return ('ptr', (this[0], this[1] + (('arr', len(fs)),)))
    if n == 'fill':
        v = I.rv(args[0])
        for f, ft in fs:
            I.store((this[0], this[1] + (f,)), v, ft, quiet=True)
        I.note_write(this, ct, v)
        return ('void',)
    return NotImplemented


# ------------------------------------------------------------------ strings and streams
def str_method(I, ref, this, args, node, n, h):
    ct = I.ctypes.get(this) or ref.get('cls', '')
    ps = ref.get('params') or []
    if ref.get('k') == 'ctor':
        ct = ref.get('cls', '')
        if is_copy(ref):
            return NotImplemented
        real = [(a, p) for a, p in zip(args, ps) if head(p) != 'std::allocator']
        if not real:
            v = ('str', '')
        elif len(real) == 1:
            v = I.rv(real[0][0])
            if v[0] == 'ptr':
                v = ptr_chars(I, v)
            if v[0] == 'initlist':
                xs = [I.term_of(x) for x in v[1]]
                v = ('str', ''.join(chr(int(x[1]) & 255) for x in xs)) if all(is_c(x) for x in xs) else ('u', 'chars') + tuple(xs)
        elif len(real) == 2 and bare(ps[0]) in INTS:
            nn, ch = I.rv(real[0][0]), I.rv(real[1][0])
            if is_c(nn) and is_c(ch):
                v = ('str', chr(int(ch[1]) & 255) * int(nn[1]))
            else:
                v = ('u', 'fill', nn, ch)
        elif len(real) == 2 and bare(ps[0]).endswith('*'):
            s, nn = I.rv(real[0][0]), I.rv(real[1][0])
            v = ('str', s[1][:int(nn[1])]) if s[0] == 'str' and is_c(nn) else ('u', 'substr', s, ZERO, nn)
        else:
            xs = [T(I, a, bare(p)) for a, p in real]
            if head(ps[0]) in STRS and len(xs) >= 2:
                v = substr(xs[0], xs[1], xs[2] if len(xs) > 2 else NPOS)
            else:
                v = ('u', 'string') + tuple(xs)
        I.store(this, v, ct, quiet=True)
        return ('void',)
    if this is None:
        return NotImplemented
    if n == 'operator=' and (is_copy(ref) or len(args) == 1):
        v = I.rv(args[0])
        I.store(this, v, ct)
        if ref.get('special') == 'moveassign' and args[0][0] == 'L' and args[0][1][0][0] != 'temp':
            I.moved_from(args[0][1], ct)
        return ('L', this)
    s = I.load(this, ct, quiet=True)

    def rd():
        I.note_read(this, ct, method=n)
    if n in ('size', 'length'):
        rd()
        return size_of(s)
    if n == 'empty':
        rd()
        return empty_term(s)
    if n in ('c_str', 'data'):
        rd()
        if n == 'c_str' or h == 'std::basic_string_view':
            return ('u', 'cstr', s) if s[0] != 'str' else s
        return ('u', 'cstr', s) if s[0] != 'str' else s
    if ref.get('k') == 'conv':
        rd()
        return s
    if n in ('operator[]', 'at', 'front', 'back'):
        rd()
        i = ZERO if n == 'front' else sub(size_of(s), ONE) if n == 'back' else I.rv(args[0], 'unsigned long')
        I.ev_add('index', size=size_of(s), index=i, obj=this, checkedat=(n == 'at'), str=True, method=n)
        q = (('elem', this, ('idx', i, s)), ())
        I.ctypes.setdefault(q, 'char')
        if q not in I.mem:
            I.mem[q] = charat(s, i)
        return ('L', q)
    if n in ('begin', 'cbegin'):
        rd()
        return ('it', this, s, ('begin',))
    if n in ('end', 'cend'):
        rd()
        return ('it', this, s, ('end',))
    if n == 'substr':
        rd()
        a = I.rv(args[0], 'unsigned long') if args else ZERO
        b = I.rv(args[1], 'unsigned long') if len(args) > 1 else NPOS
        I.ev_add('substr', s=s, pos=a, size=size_of(s))
        return substr(s, a, b)
    if n == 'remove_prefix':
        k = I.rv(args[0], 'unsigned long')
        I.store(this, substr(s, k, NPOS), ct)
        return ('void',)
    if n == 'remove_suffix':
        k = I.rv(args[0], 'unsigned long')
        I.store(this, substr(s, ZERO, sub(size_of(s), k)), ct)
        return ('void',)
    if n in ('starts_with', 'ends_with', 'contains'):
        rd()
        p = I.rv(args[0])
        if is_c(p):
            p = ('str', chr(int(p[1]) & 255))
        if s[0] == 'str' and p[0] == 'str':
            return C({'starts_with': s[1].startswith(p[1]), 'ends_with': s[1].endswith(p[1]), 'contains': p[1] in s[1]}[n])
        if s == p:
            return TRUE
        if p == ('str', ''):
            return TRUE
        return ('u', n, s, p)
    if n in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_first_not_of', 'find_last_not_of'):
        rd()
        p = I.rv(args[0])
        if is_c(p):
            p = ('str', chr(int(p[1]) & 255))
        pos = I.rv(args[1], 'unsigned long') if len(args) > 1 else (ZERO if n in ('find', 'find_first_of', 'find_first_not_of') else NPOS)
        if s[0] == 'str' and p[0] == 'str' and is_c(pos) and n == 'find':
            r = s[1].find(p[1], int(pos[1]))
            return C(r) if r >= 0 else NPOS
        return ('u', n, s, p) + ((pos,) if pos not in (ZERO, NPOS) else ())
    if n == 'compare':
        rd()
        p = I.rv(args[0])
        if len(args) == 1:
            return ('s', 'compare(%s,%s)' % (show(s), show(p)), 'i', '') if s != p else ZERO
        return ('u', 'compare', s) + tuple(T(I, a) for a in args)
    if n in ('operator+=', 'append', 'push_back'):
        p = I.rv(args[0])
        if is_c(p) and bare((ps or [''])[0]) == 'char':
            p = ('str', chr(int(p[1]) & 255))
        if len(args) > 1:
            p = ('u', 'appended') + tuple(T(I, a) for a in args)
        I.store(this, concat(s, p), ct)
        return ('L', this) if n != 'push_back' else ('void',)
    if n == 'clear':
        I.store(this, ('str', ''), ct)
        return ('void',)
    if n in ('resize', 'reserve', 'shrink_to_fit'):
        if n == 'resize':
            I.store(this, ('u', 'resize', s, I.rv(args[0], 'unsigned long')), ct)
        return ('void',)
    if n == 'swap':
        q = I.as_place(args[0])
        v = I.load(q, ct, quiet=True)
        I.store(this, v, ct)
        I.store(q, s, ct)
        return ('void',)
    return NotImplemented


def ptr_chars(I, v):
    return v


def substr(s, a, b):
    if s[0] == 'str' and is_c(a) and is_c(b):
        return ('str', s[1][int(a[1]):int(a[1]) + int(b[1])])
    if a == ZERO and b == NPOS:
        return s
    return ('u', 'substr', s, a) + ((b,) if b != NPOS else ())


@fn('std::operator+')
def str_plus(I, ref, this, args, node):
    ps = ref.get('params') or []
    if len(args) != 2:
        return NotImplemented
    if not any(head(p) in STRS for p in ps):
        return NotImplemented
    out = []
    for a, p in zip(args, ps):
        v = I.rv(a, bare(p))
        if bare(p) == 'char':
            v = ('str', chr(int(v[1]) & 255)) if is_c(v) else ('u', 'chars', v)
        out.append(v)
    return concat(out[0], out[1])


@fn('std::to_string')
def to_string(I, ref, this, args, node):
    v = I.rv(args[0], bare((ref.get('params') or [''])[0]))
    if is_c(v) and isinstance(v[1], int):
        return ('str', str(v[1]))
    return ('u', 'to_string', v)


@fn('std::stoi', 'std::stol', 'std::stoll', 'std::stoul', 'std::stoull', 'std::stof', 'std::stod', 'std::stold')
def sto(I, ref, this, args, node):
    from absint import CxxThrow
    s = T(I, args[0])
    I.ev_add('call', fid=ref['fid'], callee=ref['sq'], obj=None, args=[s] + [T(I, a) for a in args[1:]], argp=args, ref=ref)
    if I.choose(2) == 1:
        raise CxxThrow('*', ('s', 'exc:' + ref['n']))
    if len(args) > 1:
        q = I.rv(args[1])
        if q[0] == 'ptr':
            I.store(q[1], ('u', 'consumed', s), 'unsigned long')
    return I.sym('%s(%s)' % (ref['n'], show(s)), ref.get('ret', 'int'))


def stream_state(I, p):
    return I.load(p, I.ctypes.get(p, 'std::stringstream'), quiet=True)


def stream_method(I, ref, this, args, node, n, h):
    if ref.get('k') == 'ctor':
        if is_copy(ref):
            return NotImplemented
        I.store(this, ('u', 'stream') + tuple(T(I, a) for a in args[:1]), ref.get('cls', ''), quiet=True)
        I.ctypes[this] = bare(ref.get('cls', ''))
        return ('void',)
    if this is None:
        return NotImplemented
    p = this
    s = stream_state(I, p)
    if n in ('fail', 'operator!'):
        return ('u', 'fail', s)
    if n == 'operator bool' or ref.get('k') == 'conv':
        return lnot(('u', 'fail', s))
    if n in ('eof', 'bad', 'good'):
        return ('u', n, s)
    if n == 'str' and not args:
        return ('u', 'stream_str', s)
    if n in ('operator<<', 'write', 'put', 'flush'):
        a = I.rv(args[0]) if args else ZERO
        I.mem[p] = ('u', '<<', s, I.term_of(a))
        I.ev_add('output', stream=p, val=I.term_of(a))
        return ('L', p)
    if n == 'operator>>' or n in ('get', 'read', 'getline', 'ignore'):
        return extract_into(I, p, s, args, ref)
    if n in ('width', 'fill', 'flags', 'precision', 'imbue', 'setf', 'unsetf', 'exceptions', 'clear', 'setstate', 'str'):
        I.mem[p] = ('u', 'fmt:' + n, s) + tuple(T(I, a) for a in args)
        return I.ret_fresh(ref, n) if bare(ref.get('ret', 'void')) != 'void' else ('void',)
    return NotImplemented


def extract_into(I, p, s, args, ref):
    if args:
        a = args[0]
        if a[0] == 'L':
            t = I.ctypes.get(a[1], '')
            I.nfresh += 1
            v = ('u', 'extracted', s)
            old = I.mem.get(a[1])
            if I.is_struct(t):
                I.havoc_place(a[1], 'extracted', t)
            elif is_chrono(t):
                I.store(a[1], mul(I.sym('extracted(%s)' % show(s), 'long'), C(period_of(t))), t)
            else:
                I.store(a[1], I.sym('extracted(%s)' % show(s), t) if bare(t) in INTS or bare(t) in FLOATS else v, t)
            I.ev_add('extract', stream=p, into=a[1], frm=s)
    I.mem[p] = ('u', '>>', s)
    return ('L', p)


@fn('std::operator>>')
def op_extract(I, ref, this, args, node):
    p = I.as_place(args[0])
    return extract_into(I, p, stream_state(I, p), args[1:], ref)


@fn('std::operator<<')
def op_insert(I, ref, this, args, node):
    p = I.as_place(args[0])
    s = stream_state(I, p)
    v = T(I, args[1], bare((ref.get('params') or ['', ''])[1]))
    if is_c(v) and bare((ref.get('params') or ['', ''])[1]) in ('char', 'signed char', 'unsigned char'):
        v = ('str', chr(int(v[1]) & 255))
    I.mem[p] = ('u', '<<', s, v)
    I.ev_add('output', stream=p, val=v)
    return ('L', p)


@fn('std::getline')
def getline(I, ref, this, args, node):
    p = I.as_place(args[0])
    s = stream_state(I, p)
    d = T(I, args[2]) if len(args) > 2 else C(10)
    q = I.as_place(args[1])
    I.nfresh += 1
    I.store(q, ('s', 'line#%d' % I.nfresh), I.ctypes.get(q, ''))
    I.mem[p] = ('u', 'getline', s, C(I.nfresh))
    I.ev_add('getline', stream=p, into=q, delim=d)
    return ('L', p)


@fn('std::endl', 'std::flush', 'std::left', 'std::right', 'std::boolalpha', 'std::hex', 'std::dec')
def manip(I, ref, this, args, node):
    return args[0] if args else NotImplemented


@fn('date::from_stream')
def date_from_stream(I, ref, this, args, node):
    q = I.as_place(args[2])
    t = I.ctypes.get(q, '')
    fmt = T(I, args[1])
    fmt = fmt[2] if fmt[0] == 'u' and fmt[1] == 'cstr' else fmt
    I.ev_add('date_parse', fmt=fmt, into=q, t=t)
    return parsed_into(I, I.as_place(args[0]), fmt, q)


@fn('date::parse')
def date_parse(I, ref, this, args, node):
    q = I.as_place(args[1])
    t = I.ctypes.get(q, '')
    fmt = T(I, args[0])
    I.ev_add('date_parse', fmt=fmt, into=q, t=t)
    return ('manip', fmt, ('ptr', q))


@fn('date::operator>>')
def date_extract(I, ref, this, args, node):
    p = I.as_place(args[0])
    s = stream_state(I, p)
    m = I.rv(args[1])
    if m[0] != 'manip':
        return NotImplemented
    return parsed_into(I, p, m[1], m[2][1])


def parsed_into(I, p, fmt, q):
    s = stream_state(I, p)
    m = (None, fmt)
    t = I.ctypes.get(q, '')
    v = mul(I.sym('parsed(%s,%s)' % (show(s), show(m[1])), 'long'), C(period_of(t)))
    I.store(q, v, t, quiet=True)
    I.mem[p] = ('u', '>>', s, m[1])
    I.ev_add('extract', stream=p, into=q, frm=s, fmt=m[1])
    return ('L', p)


@fn('date::format')
def date_format(I, ref, this, args, node):
    v = ('u', 'date_format') + tuple(T(I, a) for a in args) + (('str', bare((ref.get('params') or ['', ''])[1])),)
    I.ev_add('date_format', args=[T(I, a) for a in args], t=bare((ref.get('params') or ['', ''])[1]))
    return v


# ------------------------------------------------------------------ numeric algorithms
def pick(I, cond, a, b):
    return a if I.branch(cond) else b


def num_or_ord(I, v):
    return v


@fn('std::min', 'std::max', 'std::ranges::__min_fn::operator()', 'std::ranges::__max_fn::operator()', 'fmin', 'fmax', 'std::fmin', 'std::fmax')
def std_minmax1(I, ref, this, args, node):
    mx = 'max' in ref['sq']
    if args and len(args) == 1 or (args and I.rv(args[0])[0] == 'initlist'):
        v = I.rv(args[0])
        if v[0] != 'initlist':
            return NotImplemented
        items = list(v[1])
    else:
        items = list(args[:2])
        if len(args) > 2:
            return NotImplemented
    best = items[0]
    for x in items[1:]:
        a, b = T(I, best), T(I, x)
        if I.branch(lt(a, b) if mx else lt(b, a)):
            best = x
    if is_ref(ref.get('ret', '')):
        return best if best[0] == 'L' else scalar_place(I, best, bare(ref.get('ret', '')))
    return I.rv(best) if best[0] == 'L' else best


@fn('std::clamp', 'std::ranges::__clamp_fn::operator()')
def std_clamp(I, ref, this, args, node):
    v, lo, hi = (T(I, a) for a in args[:3])
    I.ev_add('clamp', lo=lo, hi=hi, val=v)
    r = args[1] if I.branch(lt(v, lo)) else args[2] if I.branch(lt(hi, v)) else args[0]
    return r if r[0] == 'L' else scalar_place(I, r, bare(ref.get('ret', '')))


@fn('std::minmax')
def std_minmax(I, ref, this, args, node):
    if len(args) != 2:
        return NotImplemented
    a, b = T(I, args[0]), T(I, args[1])
    sw = I.branch(lt(b, a))
    t = ref.get('ret', '')
    p = I.new_temp(t)
    x, y = (args[1], args[0]) if sw else (args[0], args[1])
    for f, q in (('first', x), ('second', y)):
        I.mem[(p[0], (f,))] = ('ptr', I.as_place(q)) if is_ref((I.fields_of(t) or [('', ''), ('', '')])[0][1]) else I.rv(q)
    return ('obj', p, bare(t))


@fn('std::abs', 'abs', 'fabs', 'std::fabs', 'labs')
def std_abs(I, ref, this, args, node):
    return absval(I, I.rv(args[0]))


@fn('sqrt', 'std::sqrt', 'sqrtf', 'std::sqrtf')
def std_sqrt(I, ref, this, args, node):
    return sqrt_t(I.rv(args[0]))


def sqrt_t(v):
    if is_c(v) and isinstance(v[1], (int, Fr)) and v[1] >= 0:
        from math import isqrt
        f = Fr(v[1])
        a, b = isqrt(f.numerator), isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return C(Fr(a, b))
    return ('sqrt', v)


@fn('hypot', 'std::hypot')
def std_hypot(I, ref, this, args, node):
    r = ZERO
    for a in args:
        v = I.rv(a)
        r = add(r, mul(v, v))
    return sqrt_t(r)


@fn('pow', 'std::pow')
def std_pow(I, ref, this, args, node):
    a, b = I.rv(args[0]), I.rv(args[1])
    if is_c(b) and b[1] == int(b[1]) and 0 <= b[1] <= 4:
        r = ONE
        for _ in range(int(b[1])):
            r = mul(r, a)
        return r
    if is_c(b) and b[1] == Fr(1, 2):
        return ('sqrt', a)
    return ('u', 'pow', a, b)


@fn('std::lerp', 'std::midpoint')
def std_lerp(I, ref, this, args, node):
    a, b = I.rv(args[0]), I.rv(args[1])
    t = I.rv(args[2]) if len(args) > 2 else C(Fr(1, 2))
    return add(a, mul(t, sub(b, a)))


@fn('std::isnan', 'isnan', '__builtin_isnan')
def isnan(I, ref, this, args, node):
    return C(1 if I.rv(args[0]) == ('nonfin', 'nan') else 0)


@fn('std::isinf', 'isinf', '__builtin_isinf')
def isinf(I, ref, this, args, node):
    v = I.rv(args[0])
    return C(1 if v[0] == 'nonfin' and v[1] != 'nan' else 0)


@fn('std::isfinite', 'isfinite', '__builtin_isfinite', 'std::isnormal')
def isfinite(I, ref, this, args, node):
    v = I.rv(args[0])
    return C(0 if v[0] == 'nonfin' else 1)


@fn('std::call_once')
def call_once(I, ref, this, args, node):
    if I.choose(2) == 0:
        return I.call_value(I.rv(args[1]), args[2:], {'t': 'void'})
    return ('void',)


@fn('__builtin_unreachable')
def unreachable(I, ref, this, args, node):
    from absint import PathEnd
    I.ev_add('unreachable')
    raise PathEnd('noreturn')


@fn('getenv', 'std::getenv')
def getenv(I, ref, this, args, node):
    n = T(I, args[0])
    I.ev_add('call', fid=ref['fid'], callee='getenv', obj=None, args=[n], argp=args, ref=ref)
    return ('s', 'getenv(%s)' % show(n))


@fn('memcpy', 'std::memcpy', '__builtin_memcpy', 'std::copy_n', 'std::copy')
def memcpy(I, ref, this, args, node):
    for a in args:
        pass
    d = I.rv(args[0]) if 'mem' in ref['n'] else I.rv(args[-1])
    I.ev_add('memcpy', dst=d, args=[T(I, a) for a in args])
    if d[0] == 'ptr':
        root, path = d[1]
        while path and isinstance(path[-1], tuple):
            path = path[:-1]
        I.havoc_place((root, path), 'memcpy', I.ctypes.get((root, path), ''))
    return d

"""Path-sensitive abstract interpretation of the resolved program (trace-partitioned dataflow).

Every call to a library function whose body is available is inlined; loops are abstracted by
havocking, at the loop head, everything any iteration may modify, and then following one generic
iteration; locks, waits and calls out of the library invalidate what other threads may change.
The result is a finite set of abstract paths, each a list of events (lock, unlock, read, write,
call, wait, notify, spawn, ...) with the branch facts and the set of locks held at each of them."""
import re, sys
from fractions import Fraction as Fr
from terms import *
from prog import bare, is_ref, split_targs, INTS, FLOATS, AnalysisBroken

import time
sys.setrecursionlimit(20000)


class CxxReturn(Exception):
    def __init__(self, v):
        self.v = v


class CxxBreak(Exception):
    pass


class CxxContinue(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, t, v, std=True):
        self.t, self.v, self.std = t, v, std


class PathEnd(Exception):
    def __init__(self, why):
        self.why = why


_VER = re.compile(r'[@#]\d+')


def canon(place):
    """name of a memory location up to versions and element positions (the granularity of locking rules)"""
    root, path = place
    if root[0] == 'elem':
        s = canon(root[1]) + '[]'
    elif root[0] == 'this':
        s = 'this' + (str(root[1]) if len(root) > 1 and root[1] else '')
    elif root[0] == 'deref':
        s = '*' + _VER.sub('', show(root[1]))
    elif root[0] == 'heap':
        s = 'heap'
    elif root[0] in ('local', 'temp', 'ret'):
        s = root[0] + ':' + _VER.sub('', str(root[1]))
    else:
        s = root[0] + ':' + str(root[1])
    for x in path:
        if isinstance(x, str) and not x.startswith('#'):
            s += '.' + x
        else:
            s += '[]'
    return s


class Path:
    __slots__ = ('end', 'ret', 'raw', 'exc', 'events', 'facts', 'mem', 'line', 'I', 'nf0')


NUMT = set(INTS) | FLOATS

SHARED = {'this', 'global', 'deref', 'elem', 'param', 'heap', 'ret'}


def numlike(t):
    return numeric(t) or (t[0] == 's' and len(t) > 2 and bool(t[2]))


class Frame:
    __slots__ = ('env', 'this', 'fn', 'tu', 'ref', 'callline')

    def __init__(self, fn, this, env, callline):
        self.fn, self.this, self.env = fn, this, env
        self.tu = fn.get('tu', 0)
        self.callline = callline


BOOLTERMS = ('lt0', 'eq0', 'eq', 'not', 'le0')


class Interp:
    MAXPATHS = 20000
    BUDGET = 240
    partial = incomplete = False    # partial: give the paths found so far instead of giving up

    def __init__(self, prog, throws=None, opaque=None, numeric_prune=False, unroll=80, ints=False, no_inline=None, trace_reads=True, maxdepth=40, guards=None, fork=(), monotone=False, induct=False, keepheap=False, on_call=None, split_bool=True, maptheory=False, nonfinite=False, inexact=False, hook=None):
        self.hook = hook
        self.maptheory = maptheory
        self.nonfinite = nonfinite
        self.inexact = inexact
        self.keepheap = keepheap
        self.P = prog
        self.induct = induct
        self.on_call = on_call
        self.throws = throws or (lambda I, ref: False)
        self.no_inline = no_inline or (lambda ref: False)
        self.numeric_prune = numeric_prune
        self.split_bool = split_bool
        self.ints = ints
        self.unroll = unroll
        self.trace_reads = trace_reads
        self.maxdepth = maxdepth
        self.guards = guards or {}
        self.fork = set(fork)
        self.monotone = monotone
        self.fields_cache = {}
        self.unmodelled = {}
        import models
        self.models = models

    # ------------------------------------------------------------------ state
    def reset(self):
        self.mem = {}
        self.ctypes = {}
        self.facts = {}
        self.events = []
        self.locks = []         # list of (mutex place, mode)
        self.epoch = 0
        self.nfresh = 0
        self.frames = []
        self.temps = []
        self.inpred = 0
        self.lockserial = 0
        self.steps = 0
        self.loopstack = []
        self.escaped = set()
        self.byval = set()
        self.threadpath = False
        self.dead = False
        self.flagoff = set()
        self.closures = {}
        self._scopes = []
        self.catching = []

    def snapshot(self):
        return (dict(self.mem), dict(self.ctypes), dict(self.facts), len(self.events), list(self.locks), self.epoch, self.nfresh,
                [(f, dict(f.env)) for f in self.frames], [list(t) for t in self.temps], self.inpred, self.lockserial, list(self.loopstack), set(self.escaped), self.threadpath, set(self.flagoff))

    def restore(self, s):
        self.mem, self.ctypes, self.facts = dict(s[0]), dict(s[1]), dict(s[2])
        del self.events[s[3]:]
        self.locks = list(s[4])
        self.epoch, self.nfresh = s[5], s[6]
        self.frames = [f for f, _ in s[7]]
        for f, e in s[7]:
            f.env = dict(e)
        self.temps = [list(t) for t in s[8]]
        self.inpred = s[9]
        self.lockserial = s[10]
        self.loopstack = list(s[11])
        self.escaped = set(s[12])
        self.threadpath, self.flagoff = s[13], set(s[14])

    # ------------------------------------------------------------------ exploration
    def explore(self, thunk, keep_state=False):
        """run thunk once per decision vector; returns list of (outcome) produced by thunk's return value"""
        saved = getattr(self, 'dec', None), getattr(self, 'didx', 0), getattr(self, 'nopts', None)
        out = []
        prefix = []
        limit = time.time() + self.BUDGET
        while True:
            self.dec, self.didx, self.nopts = list(prefix), 0, []
            r = thunk()
            out.append(r)
            if len(out) > self.MAXPATHS or time.time() > limit:
                if self.partial:
                    self.incomplete = True
                    break
                raise AnalysisBroken('too many abstract paths in %s' % getattr(self, 'rootname', '?'))
            taken, opts = self.dec[:self.didx], self.nopts
            i = len(taken) - 1
            while i >= 0 and taken[i] + 1 >= opts[i]:
                i -= 1
            if i < 0:
                break
            prefix = taken[:i] + [taken[i] + 1]
        self.dec, self.didx, self.nopts = saved
        return out

    def choose(self, n):
        i = self.didx
        self.didx += 1
        if i < len(self.dec):
            v = self.dec[i]
        else:
            v = 0
            self.dec.append(0)
        if len(self.nopts) <= i:
            self.nopts.append(n)
        else:
            self.nopts[i] = n
        return v

    def run(self, fid, this=None, args=None, setup=None, post=None):
        """abstract paths of a root function"""
        fn = self.P.fns.get(fid)
        if fn is None:
            raise AnalysisBroken('no body for %s' % fid)
        self.rootname = fn['sq']
        self.probes = {}
        self.ctxkey = ()

        def once():
            self.reset()
            p = Path()
            p.exc = None
            p.ret = p.raw = None
            p.line = None
            try:
                a = []
                th = this
                ref = self.P.ref(fid) or {}
                if th is None and ref.get('cls') and not ref.get('static'):
                    th = (('this', ''), ())
                    self.ctypes[th] = ref['cls']
                if setup:
                    setup(self)
                for i, prm in enumerate(fn['params']):
                    if args and i < len(args) and args[i] is not None:
                        a.append(args[i])
                        continue
                    nm = prm['n'] or 'arg%d' % i
                    j = sum(1 for q in fn['params'][:i] if q['n'] == prm['n']) if prm['n'] else 0
                    root = (('param', nm if not j else '%s.%d' % (nm, j + 1)), ())
                    self.ctypes[root] = bare(prm['t'])
                    if not is_ref(prm['t']):
                        self.byval.add(root[0])     # the callee's own copy
                    a.append(('L', root))
                p.ret = p.raw = self.call_body(fn, th, a, None, root=True)
                if bare(ref.get('ret') or '') == 'bool' and not is_ref(ref['ret']) and isinstance(p.ret, tuple) and p.ret[0] in ('s', 'not', 'eq', 'eq0', 'lt0', 'u') and self.split_bool:
                    p.ret = C(1 if self.truth(p.ret, 'bool') else 0)
                p.end = 'return'
                if post:
                    self.ev_add('after_return')
                    post(self, p)
            except PathEnd as e:
                p.end = e.why
            except CxxThrow as e:
                p.end = 'throw'
                p.exc = e
            p.events = self.events
            p.facts = self.facts
            p.mem = self.mem
            p.I = self
            return p
        return [p for p in self.explore(once) if p.end != 'infeasible']

    def expire(self):
        """the root call has returned: its parameters and locals (captured copies aside) no longer exist"""
        self.dead = True
        for p, v in list(self.mem.items()):
            if (p[0][0] == 'param' or p[0][0] == 'local' and not p[0][1].startswith('cap:')) and v[0] != 'guard':
                self.mem[p] = ('s', 'dead:' + show_place(p))

    def call_operator(self, cls, place, args=()):
        """invoke the call operator of a library class"""
        for fid, r in self.P.refs.items():
            if r.get('cls') == cls and r.get('n') == 'operator()' and self.P.fns.get(fid, {}).get('body') is not None:
                return self.call_fid(fid, place, list(args))
        raise AnalysisBroken('%s has no call operator' % cls)

    # ------------------------------------------------------------------ events
    def ev_add(self, kind, **kw):
        fr = self.frames[-1] if self.frames else None
        e = dict(kind=kind, nf=len(self.facts), locks=tuple(self.locks), fn=fr.fn['sq'] if fr else '?',
                 file=fr.fn['file'] if fr else '?', line=self.curline, depth=len(self.frames), inpred=self.inpred,
                 epoch=self.epoch, loops=tuple(self.loopstack))
        e.update(kw)
        if kind in ('vcall', 'invoke'):
            # what the caller's own shared_ptrs keep alive during the call
            e['pins'] = [show(x) for q, x in self.mem.items() if q[0][0] in ('local', 'temp', 'ret') and isinstance(x, tuple) and self.ctypes.get(q, '').startswith('std::shared_ptr<')]
        if kind in ('call', 'vcall', 'invoke', 'spawn', 'cop'):
            if kind != 'cop' or self.shared(kw.get('place') or (('this',), ())):
                for a in kw.get('args') or ():
                    self.escape(a)
        self.events.append(e)
        return e

    curline = 0

    def stack(self):
        return [f.fn['sq'] for f in self.frames]

    # ------------------------------------------------------------------ types / objects
    def fields_of(self, t):
        t = bare(t)
        r = self.fields_cache.get(t, 0)
        if r != 0:
            return r
        r = None
        name, targs = split_targs(t)
        if name in ('std::pair',) and len(targs) == 2:
            r = [('first', targs[0]), ('second', targs[1])]
        elif name == 'std::optional' and targs:
            r = [('#has', 'bool'), ('#val', targs[0])]
        elif name == 'std::_Node_handle' and len(targs) >= 2 and split_targs(targs[1])[0] == 'std::pair':
            r = [('first', targs[0]), ('second', split_targs(targs[1])[1][1])]
        elif name == 'std::tuple':
            r = [('#%d' % i, a) for i, a in enumerate(targs)]
        elif name == 'std::array' and len(targs) == 2 and targs[1].rstrip('UL').isdigit():
            n = int(targs[1].rstrip('UL'))
            r = [('#%d' % i, targs[0]) for i in range(n)] if n <= 64 else None
        elif name == 'std::ranges::min_max_result' and targs:
            r = [('min', targs[0]), ('max', targs[0])]
        else:
            rec = self.P.recs.get(t)
            if rec and rec.get('lib') and rec.get('fields') is not None and not rec.get('lambda'):
                r = []
                for b in rec.get('bases') or []:
                    bf = self.fields_of(b['t'])
                    if bf:
                        r += bf
                r += [(f['n'], f['t']) for f in rec['fields']]
        self.fields_cache[t] = r
        return r

    def field_type(self, cls, n):
        for f, t in self.fields_of(cls) or []:
            if f == n:
                return t
        return ''

    def elem_type(self, t):
        name, targs = split_targs(bare(t))
        if name in ('std::map', 'std::multimap', 'std::unordered_map', 'std::unordered_multimap') and len(targs) >= 2:
            return 'std::pair<const %s, %s>' % (targs[0], targs[1])
        if name in ('std::vector', 'std::deque', 'std::list', 'std::queue', 'std::stack', 'std::set', 'std::array', 'std::initializer_list', 'std::priority_queue', 'std::span', 'std::multiset', 'std::unordered_set', 'std::forward_list') and targs:
            return targs[0]
        if name in ('std::basic_string', 'std::basic_string_view') and targs:
            return targs[0]
        if bare(t).endswith(']'):
            return bare(t)[:bare(t).rindex('[')].strip()
        return ''

    def tinfo(self, t):
        """flags for the symbol of a scalar of type t: ('i'|'r', 'nn'|'')"""
        t = bare(t)
        if t in INTS:
            return ('i', '' if INTS[t][1] else 'nn')
        if t.startswith('std::chrono::duration') or t.startswith('std::chrono::time_point'):
            n = 'i'
            name, ta = split_targs(t)
            rep = ta[0]
            per = ta[1] if len(ta) > 1 else ''
            if t.startswith('std::chrono::time_point'):
                d = ta[1] if len(ta) > 1 else ''
                n2, ta2 = split_targs(d)
                rep = ta2[0] if ta2 else 'long'
                per = ta2[1] if len(ta2) > 1 else ''
            return ('r' if rep in FLOATS else 'i', '')
        return ('r', '')

    def base_root(self, place):
        root = place[0]
        while root[0] == 'elem':
            root = root[1][0]
        return root

    def shared(self, place):
        root = self.base_root(place)
        if root[0] == 'heap':
            return root in self.escaped
        return root[0] in SHARED and root not in self.byval

    def escape(self, v, depth=0):
        """objects allocated here and reachable from v may from now on be seen by other threads"""
        if not isinstance(v, tuple) or depth > 12:
            return
        if len(v) == 2 and v[0] == 'heap' and isinstance(v[1], int):
            if v not in self.escaped:
                self.escaped.add(v)
                for p, x in list(self.mem.items()):
                    if p[0] == v:
                        self.escape(x, depth + 1)
            return
        if v and v[0] == 'closure' and v in self.closures:
            for nm, how, p in self.closures[v][4]:
                if p is not None and p in self.mem:
                    self.escape(self.mem[p], depth + 1)
            return
        for x in v:
            if isinstance(x, tuple):
                self.escape(x, depth + 1)

    def sym(self, name, t='', extra=''):
        k, nn = self.tinfo(t)
        return ('s', name, k, nn)

    def fresh(self, what, t=''):
        self.nfresh += 1
        return self.sym('%s#%d' % (what, self.nfresh), t)

    def init_value(self, place, t):
        """symbolic initial content of a cell nobody wrote yet"""
        root = place[0]
        tb = bare(t)
        if self.dead and (root[0] == 'param' or root[0] == 'local' and not root[1].startswith('cap:')):
            return ('s', 'dead:' + show_place(place))
        if root[0] in ('local', 'temp'):
            return ('uninit', place)
        nm = show_place(place)
        const = t.strip().startswith('const ')
        if self.epoch and self.shared(place) and not const and root[0] != 'elemc':
            nm += '@%d' % self.epoch
        if tb.endswith('*') or tb.startswith('std::unique_ptr') or tb.startswith('std::shared_ptr') or tb.startswith('std::function'):
            return ('s', nm)
        if tb.startswith('std::chrono::duration') or tb.startswith('std::chrono::time_point'):
            k, nn = self.tinfo(tb)
            per = self.models.period_of(tb)
            return mul(('s', nm, k, nn), C(per)) if per != 1 else ('s', nm, k, nn)
        k, nn = self.tinfo(tb)
        if tb in NUMT or tb == 'bool':
            return ('s', nm, k, nn)
        return ('s', nm)

    def is_struct(self, t):
        return self.fields_of(t) is not None

    def load(self, place, t, quiet=False):
        tb = bare(t)
        if self.is_struct(tb):
            return ('obj', place, tb)
        v = self.mem.get(place)
        if v is None:
            v = self.init_value(place, t if t else self.ctypes.get(place, ''))
            self.mem[place] = v
        if not quiet:
            self.note_read(place, t, val=v)
        return v

    def note_read(self, place, t='', **kw):
        if self.trace_reads and self.interesting(place):
            self.ev_add('read', place=place, t=t, **kw)

    def note_write(self, place, t='', val=None, **kw):
        if self.interesting(place):
            self.ev_add('write', place=place, t=t, val=val, **kw)

    def interesting(self, place):
        return self.shared(place)

    def kill_sub(self, place):
        root, path = place
        n = len(path)
        dead = [p for p in self.mem if p[0] == root and len(p[1]) > n and p[1][:n] == path]
        for p in dead:
            del self.mem[p]

    def store(self, place, val, t, quiet=False):
        tb = bare(t)
        fs = self.fields_of(tb)
        if fs is not None:
            if val[0] == 'obj':
                src = val[1]
                if src == place:
                    return
                vals = []
                for f, ft in fs:
                    sp = (src[0], src[1] + (f,))
                    if is_ref(ft):
                        vals.append((f, ft, self.mem.get(sp, ('s', 'ref:' + show_place(sp)))))
                    else:
                        vals.append((f, ft, self.load(sp, ft, quiet=True)))
                if not quiet:
                    self.note_write(place, t, val)
                for f, ft, v in vals:
                    dp = (place[0], place[1] + (f,))
                    if is_ref(ft):
                        self.mem[dp] = v
                    else:
                        self.store(dp, v, ft, quiet=True)
                self.ctypes[place] = tb
                return
            # opaque value of a structured type: spread
            if not quiet:
                self.note_write(place, t, val)
            for f, ft in fs:
                dp = (place[0], place[1] + (f,))
                self.store(dp, self.project(val, f, ft), ft, quiet=True)
            self.ctypes[place] = tb
            return
        self.kill_sub(place)
        prev = self.mem.get(place)
        self.mem[place] = val
        self.ctypes[place] = tb
        if self.shared(place):
            self.escape(val)
        if not quiet:
            self.note_write(place, t, val, prev=prev)

    def project(self, val, f, ft):
        if val[0] == 'agg':
            for k, v in val[2]:
                if k == f:
                    return v
        k, nn = self.tinfo(ft)
        nm = show(val) + '.' + f
        if bare(ft).startswith('std::chrono::') and (bare(ft).startswith('std::chrono::duration') or bare(ft).startswith('std::chrono::time_point')):
            return mul(('s', nm, k, nn), C(self.models.period_of(bare(ft))))
        return ('s', nm, k, nn) if bare(ft) in NUMT else ('s', nm)

    def term_of(self, v, t=''):
        """a single term standing for a value (structured objects become an aggregate of their components)"""
        if v[0] == 'L':
            v = self.load(v[1], t or self.ctypes.get(v[1], ''), quiet=True)
        if v[0] == 'obj':
            tb = v[2]
            comps = []
            for f, ft in self.fields_of(tb) or []:
                sp = (v[1][0], v[1][1] + (f,))
                if is_ref(ft):
                    comps.append((f, self.mem.get(sp, ('s', 'ref:' + show_place(sp)))))
                else:
                    comps.append((f, self.term_of(self.load(sp, ft, quiet=True), ft)))
            # an untouched symbolic object is named by its place
            return ('agg', tb, tuple(comps))
        return v

    def new_temp(self, t, tag='tmp'):
        self.nfresh += 1
        p = (('temp', '%s%d' % (tag, self.nfresh)), ())
        self.ctypes[p] = bare(t)
        return p

    def as_place(self, v, t=''):
        """materialise a value in a temporary if it is not already a place"""
        if v[0] == 'L':
            return v[1]
        if v[0] == 'obj':
            return v[1]
        p = self.new_temp(t)
        self.store(p, v, t or '', quiet=True)
        return p

    def rv(self, v, t=''):
        """value of v (load if it is a place)"""
        if v[0] == 'L':
            return self.load(v[1], t or self.ctypes.get(v[1], ''))
        return v

    def deref(self, v, t=''):
        if v[0] == 'ptr':
            return v[1]
        if v[0] == 'it':
            return self.models.it_place(self, v)
        p = (('deref', v), ())
        if t:
            self.ctypes.setdefault(p, bare(t))
        return p

    # ------------------------------------------------------------------ havoc
    def is_const_place(self, place):
        t = self.ctypes.get(place, '')
        return t.startswith('const ')

    def guarded(self, place, without=None):
        """place is only ever written under a mutex we hold"""
        if not self.guards or not self.locks:
            return False
        k = canon(place)
        while k:
            g = self.guards.get(k)
            if g is not None:
                return any(canon(m) in g and m != without for m, mode, ser in self.locks)
            i = max(k.rfind('.'), k.rfind('[]'))
            if i <= 0:
                return False
            k = k[:i]
        return False

    def havoc_shared(self, why, without=None):
        """other threads may have run: every shared, non-const cell gets a new version,
        except what a mutex held throughout (i.e. not `without`) protects"""
        self.epoch += 1
        dead = []
        for p in self.mem:
            if self.keepheap and p[0][0] == 'heap':
                continue
            if self.shared(p) and not self.stable(p) and not self.guarded(p, without):
                dead.append(p)
        for p in dead:
            del self.mem[p]

    def stable(self, place):
        # const-qualified members keep their value
        root, path = place
        if not path:
            return root[0] in ('heapc',)
        cls = self.ctypes.get((root, path[:-1]))
        if cls is None and root[0] == 'this' and len(path) == 1:
            cls = self.ctypes.get((root, ()))
        if cls:
            ft = self.field_type(cls, path[-1]) if isinstance(path[-1], str) else ''
            if ft.startswith('const ') or is_ref(ft):
                return True
        v = self.mem.get(place)
        return v is not None and v[0] in ('guard',)

    def havoc_place(self, place, why='havoc', t=None):
        t = t or self.ctypes.get(place, '')
        self.kill_sub(place)
        old = self.mem.get(place)
        fs = self.fields_of(t) if t else None
        if fs is not None:
            for f, ft in fs:
                if not is_ref(ft):
                    self.havoc_place((place[0], place[1] + (f,)), why, ft)
            return
        if old is not None and old[0] == 'it':
            self.nfresh += 1
            self.mem[place] = ('it', old[1], old[2], ('loop', '%s#%d' % (why, self.nfresh)))
            return
        if old is not None and old[0] == 'guard':
            return
        tt = t or ''
        if bare(tt).startswith('std::chrono::duration') or bare(tt).startswith('std::chrono::time_point'):
            self.mem[place] = mul(self.fresh(why + ':' + show_place(place), tt), C(self.models.period_of(bare(tt))))
            return
        if old is not None and not tt and (numeric(old)):
            tt = 'int'
        self.mem[place] = self.fresh(why + ':' + show_place(place), tt)

    # ------------------------------------------------------------------ branching
    def branch(self, t):
        v = self.decide(t)
        if v is not None:
            return v
        neg_ = False
        while t[0] == 'not':
            t, neg_ = t[1], not neg_
        opts = [True, False]
        if self.numeric_prune and t[0] in ('lt0', 'eq0'):
            opts = [o for o in opts if feasible(list(self.facts.items()) + [(t, o)], self.ints)]
            if not opts:
                raise PathEnd('infeasible')
            if len(opts) == 1:
                self.facts[t] = opts[0]
                return opts[0] != neg_
        r = opts[self.choose(2)]
        self.facts[t] = r
        return r != neg_

    def decide(self, t):
        neg_ = False
        while t[0] == 'not':
            t, neg_ = t[1], not neg_
        if t[0] == 'c':
            return bool(t[1]) != neg_
        if t in self.facts:
            return self.facts[t] != neg_
        r = self.implied(t)
        if r is not None:
            return r != neg_
        return None

    def implied(self, t):
        """cheap consequences between comparisons of the same form, and of sizes"""
        if t[0] == 'lt0':
            p = t[1]
            f = self.facts
            npoly = from_poly({m: -c for m, c in to_poly(p).items()})
            if f.get(('lt0', npoly)) is True:
                return False
            e = eq(p, ZERO)
            if e[0] == 'eq0' and f.get(e) is True:
                return False
            if f.get(('lt0', npoly)) is False and e[0] == 'eq0' and f.get(e) is False:
                return True
        elif t[0] == 'eq0':
            p = t[1]
            f = self.facts
            if f.get(('lt0', p)) is True:
                return False
            npoly = from_poly({m: -c for m, c in to_poly(p).items()})
            if f.get(('lt0', npoly)) is True:
                return False
            if f.get(('lt0', npoly)) is False and f.get(('lt0', p)) is False:
                return True
        if t[0] in ('lt0', 'eq0'):
            # linear consequence within the polyhedron of the path, only for few facts over the same atoms
            mons = set(to_poly(t[1])) - {()}
            if len(mons) <= 2:
                rel = [(a, b) for a, b in self.facts.items() if a[0] in ('lt0', 'eq0') and (set(to_poly(a[1])) - {()}) <= mons]
                isz = all(all(x[0] in ('size', 'len') or (x[0] == 's' and len(x) > 3 and x[3] == 'nn') for x, e in m) for m in mons)
                if rel or isz:
                    ints = True
                    if not feasible(rel + [(t, True)], ints):
                        return False
                    if not feasible(rel + [(t, False)], ints):
                        return True
        return None

    def truth(self, v, t=''):
        """branch on a C++ condition value"""
        if v[0] == 'L':
            v = self.rv(v, t)
        return self.branch(self.boolterm(v, t))

    def boolterm(self, v, t=''):
        tb = bare(t) if t else ''
        if v[0] in ('lt0', 'eq0', 'eq', 'not', 'u'):
            if v[0] == 'u' and tb and tb != 'bool' and tb in NUMT:
                return lnot(eq(v, ZERO))
            return v
        if v[0] == 'c':
            return C(1 if v[1] else 0)
        if v[0] == 'null':
            return FALSE
        if v[0] in ('ptr', 'closure', 'fnptr', 'memfn', 'bind'):
            return TRUE
        if v[0] == 's':
            if tb in ('bool', ''):
                return v
            if tb in NUMT:
                return lnot(eq(v, ZERO))
            return lnot(eq(v, NULL))
        if v[0] == 'poly' or tb in NUMT and tb != 'bool':
            return lnot(eq(v, ZERO))
        if tb == 'bool' or not tb:
            return v
        return lnot(eq(v, NULL))

    # ------------------------------------------------------------------ locks
    def lock(self, m, mode='x', via=None):
        self.ev_add('lock', mutex=m, mode=mode, again=any(x[0] == m for x in self.locks))
        self.lockserial += 1
        self.locks.append((m, mode, self.lockserial))
        self.havoc_shared('lock', without=m)

    def unlock(self, m):
        for i in range(len(self.locks) - 1, -1, -1):
            if self.locks[i][0] == m:
                del self.locks[i]
                self.ev_add('unlock', mutex=m)
                self.havoc_shared('unlock')
                return
        self.ev_add('unlock_unheld', mutex=m)

    # ------------------------------------------------------------------ functions
    def call_fid(self, fid, this, args, node=None, virt=False):
        """args: list of ('L',place) or values"""
        ref = self.P.ref(fid) or {}
        r = self.hook(self, ref, this, args, node) if self.hook else NotImplemented
        if r is not NotImplemented:
            return r
        r = self.models.dispatch(self, ref, this, args, node)
        if r is not NotImplemented:
            return r
        fn = self.P.fns.get(fid)
        if virt and ref.get('virtual'):
            fn2 = self.resolve_virtual(fid, ref, this)
            if fn2 is None:
                return self.vcall(fid, ref, this, args, node)
            fn = fn2
        if fn is not None and not self.no_inline(ref) and (fn.get('body') is not None or ref.get('k') == 'ctor' or ref.get('defaulted')):
            if len(self.frames) > self.maxdepth or sum(1 for f in self.frames if f.fn is fn) >= 2:
                self.ev_add('recursion', callee=ref.get('sq'))
                return self.unknown_call(fid, ref, this, args, node)
            return self.call_body(fn, this, args, node)
        if ref.get('defaulted') or ref.get('special') in ('copy', 'move', 'copyassign', 'moveassign'):
            if self.models.maythrow(self, ref):
                self.models.raise_std(self, ref)
            r = self.special(ref, this, args)
            if r is not NotImplemented:
                return r
        return self.unknown_call(fid, ref, this, args, node)

    def resolve_virtual(self, fid, ref, this):
        if this is None:
            return None
        if this[0][0] == 'this' and not this[1]:
            # the dynamic type of the root object: final overrider of the root class
            dyn = self.ctypes.get(this)
        else:
            dyn = self.ctypes.get(this) if this[0][0] in ('heap', 'local', 'temp') else None
        if dyn is None:
            return None
        rec = self.P.recs.get(dyn)
        if rec is None:
            return None
        for m in rec.get('methods') or []:
            mr = self.P.ref(m) or {}
            if m == fid:
                return self.P.fns.get(fid)
            seen, work = set(), list(mr.get('overrides') or [])
            while work:
                o = work.pop()
                seen.add(o)
                work.extend((self.P.ref(o) or {}).get('overrides') or [])
            if fid in seen:
                return self.P.fns.get(m)
        return self.P.fns.get(fid) if self.P.fns.get(fid, {}).get('body') is not None else None

    def vcall(self, fid, ref, this, args, node):
        self.ev_add('vcall', fid=fid, callee=ref.get('sq'), obj=this, args=[self.term_of(a) for a in args], argp=args, ref=ref)
        if self.throws(self, ref):
            if self.choose(2):
                raise CxxThrow('*', ('s', 'exc:' + ref.get('n', '')))
        self.havoc_args(ref, args)
        if not ref.get('const') and this is not None:
            self.havoc_sub(this)
        return self.ret_fresh(ref, show_place(this) + '->' + ref.get('n', '?') if this else ref.get('n', '?'))

    def havoc_sub(self, place):
        root, path = place
        for p in [p for p in self.mem if p[0] == root and p[1][:len(path)] == path]:
            if not self.stable(p):
                del self.mem[p]

    def havoc_args(self, ref, args):
        ps = ref.get('params') or []
        for i, a in enumerate(args):
            if a[0] == 'L' and i < len(ps) and is_ref(ps[i]) and not ps[i].startswith('const ') and not ps[i].endswith('&&'):
                self.note_write(a[1], ps[i])
                self.havoc_place(a[1], 'arg', self.ctypes.get(a[1]) or bare(ps[i]))

    def ret_fresh(self, ref, what):
        t = ref.get('ret', '')
        if is_ref(t):
            self.nfresh += 1
            p = (('ret', '%s#%d' % (what, self.nfresh)), ())
            self.ctypes[p] = bare(t)
            return ('L', p)
        if bare(t) == 'void':
            return ('void',)
        if self.is_struct(t):
            self.nfresh += 1
            p = (('ret', '%s#%d' % (what, self.nfresh)), ())
            self.ctypes[p] = bare(t)
            return ('obj', p, bare(t))
        if bare(t).startswith('std::chrono::duration') or bare(t).startswith('std::chrono::time_point'):
            return mul(self.fresh(what, t), C(self.models.period_of(bare(t))))
        return self.fresh(what, t)

    def unknown_call(self, fid, ref, this, args, node):
        """a function outside the library (or without body): an event; functional result when it cannot have side effects we track"""
        sq = ref.get('sq', '?')
        self.unmodelled[sq] = self.unmodelled.get(sq, 0) + 1
        ps = ref.get('params') or []
        ats = [self.term_of(a, bare(ps[i]) if i < len(ps) else '') for i, a in enumerate(args)]
        ct = ref.get('cls', '')
        oterm = None
        if this is not None and ref.get('k') != 'ctor':
            oterm = self.term_of(('L', this), ct) if self.known_std_value(ct) else ('ptr', this)
        e = self.ev_add('call', fid=fid, callee=sq, obj=this, args=ats, argp=args, ref=ref)
        if self.on_call is not None:
            self.on_call(self, e)
        if self.throws(self, ref):
            if self.choose(2):
                raise CxxThrow('*', ('s', 'exc:' + sq))
        if ref.get('noreturn'):
            raise PathEnd('noreturn')
        self.havoc_args(ref, args)
        if ref.get('k') == 'ctor' and this is not None:
            self.store(this, ('u', 'ctor:' + sq) + tuple(ats), ct, quiet=True)
            return ('void',)
        if this is not None and not ref.get('const') and not ref.get('static'):
            if self.known_std_value(ct):
                old = self.load(this, ct, quiet=True)
                self.note_write(this, ct, method=ref.get('n'))
                self.mem[this] = ('u', 'upd:' + ref.get('n', '?'), old) + tuple(ats)
            return self.ret_fresh(ref, sq)
        if ref.get('lib') or is_ref(ref.get('ret', '')):
            return self.ret_fresh(ref, sq)
        if bare(ref.get('ret', '')) == 'void':
            return ('void',)
        v = ('u', sq) + ((oterm,) if oterm is not None else ()) + tuple(ats)
        if self.is_struct(ref.get('ret', '')):
            p = self.new_temp(ref['ret'])
            self.store(p, v, ref['ret'], quiet=True)
            return ('obj', p, bare(ref['ret']))
        return v

    def known_std_value(self, ct):
        return True

    def special(self, ref, this, args):
        sp = ref.get('special')
        ct = ref.get('cls', '')
        if sp in ('copy', 'move') and ref.get('k') == 'ctor':
            self.copy_object(this, args[0], ct, sp == 'move')
            return ('void',)
        if sp in ('copyassign', 'moveassign'):
            self.copy_object(this, args[0], ct, sp == 'moveassign', assign=True)
            return ('L', this)
        if ref.get('k') == 'ctor' and sp == 'default':
            self.default_init(this, ct)
            return ('void',)
        if ref.get('n') == 'operator==' or (ref.get('sq') or '').endswith('operator=='):
            a = self.term_of(('L', this), ct) if this is not None else self.term_of(args[0])
            b = self.term_of(args[0] if this is not None else args[1], ct)
            return eq(a, b)
        return NotImplemented

    def copy_object(self, dst, src, ct, move, assign=False):
        sp = self.as_place(src, ct)
        fs = self.fields_of(ct)
        if fs is None:
            v = self.load(sp, ct)
            self.store(dst, v, ct, quiet=not assign)
            if move:
                self.moved_from(sp, ct)
            return
        self.store(dst, ('obj', sp, bare(ct)), ct, quiet=not assign)
        if move:
            self.moved_from(sp, ct)

    def moved_from(self, sp, ct):
        self.ev_add('movefrom', place=sp, t=ct)
        fs = self.fields_of(ct)
        if fs is not None:
            if split_targs(bare(ct))[0] == 'std::optional':
                return
            for f, ft in fs:
                if not is_ref(ft):
                    self.moved_from_q((sp[0], sp[1] + (f,)), ft)
            return
        self.moved_from_q(sp, ct)

    def moved_from_q(self, sp, ct):
        fs = self.fields_of(ct)
        if fs is not None:
            if split_targs(bare(ct))[0] == 'std::optional':
                return
            for f, ft in fs:
                if not is_ref(ft):
                    self.moved_from_q((sp[0], sp[1] + (f,)), ft)
            return
        tb = bare(ct)
        if tb.startswith('std::unique_ptr') or tb.startswith('std::shared_ptr'):
            self.mem[sp] = NULL
        elif tb.startswith('std::unique_lock'):
            self.mem[sp] = ('guard', (), False)
        elif tb in NUMT or tb.endswith('*') or tb.startswith('std::chrono'):
            pass
        elif tb.startswith('std::thread') or tb.startswith('std::jthread'):
            self.mem[sp] = ('thread', None)
        else:
            self.mem[sp] = ('moved', self.mem.get(sp, ('s', show_place(sp))))

    def default_init(self, place, ct):
        fs = self.fields_of(ct)
        rec = self.P.recs.get(bare(ct))
        if fs is None:
            self.store(place, self.models.default_value(self, ct), ct, quiet=True)
            return
        if rec and rec.get('fields'):
            inits = {f['n']: f.get('init') for f in rec['fields']}
        else:
            inits = {}
        for f, ft in fs:
            dp = (place[0], place[1] + (f,))
            if f == '#has':
                self.store(dp, FALSE, 'bool', quiet=True)
            elif f == '#val':
                continue
            elif self.is_struct(ft):
                self.default_init(dp, ft)
            elif inits.get(f):
                self.init_place(dp, ft, inits[f])
            elif bare(ft) in NUMT or bare(ft).endswith('*'):
                self.mem[dp] = ('uninit', dp) if bare(ct).startswith('tc::') else ZERO
            else:
                self.store(dp, self.models.default_value(self, ft), ft, quiet=True)

    def call_body(self, fn, this, args, node, root=False, env0=None):
        """inline a function with body"""
        env = dict(env0) if env0 else {}
        fr = Frame(fn, this, env, self.curline)
        ref = self.P.ref(fn['fid']) or {}
        self.frames.append(fr)
        self.ev_add('enter', fn_id=fn['fid'], callee=fn['sq'], obj=this)
        saveline = self.curline
        try:
            for i, prm in enumerate(fn['params']):
                key = (fn['tu'], prm['d'])
                a = args[i] if i < len(args) else self.ev(prm['def']) if prm.get('def') else ('s', 'missing-arg')
                if is_ref(prm['t']):
                    env[key] = self.as_place(a, bare(prm['t']))
                elif root and a[0] == 'L' and a[1][0][0] == 'param':
                    env[key] = a[1]
                else:
                    p = self.new_local(prm['n'], prm['t'])
                    if a[0] == 'L' and a[1][0][0] in ('temp', 'local') and self.is_struct(prm['t']) is False and self.mem.get(a[1]) is None:
                        self.store(p, self.load(a[1], prm['t']), prm['t'], quiet=True)
                    else:
                        self.store(p, self.rv(a, prm['t']), prm['t'], quiet=True)
                    env[key] = p
            byspec = ref.get('defaulted') and ref.get('special') in ('copy', 'move', 'copyassign', 'moveassign')
            if byspec:
                pass
            elif fn.get('inits') is not None:
                self.ctor_inits(fn, this, ref)
            elif ref.get('k') == 'ctor' and fn.get('body') is None:
                r = self.special(ref, this, args)
            ret = ('void',)
            if byspec:
                ret = self.special(ref, this, args)
            elif fn.get('body') is not None:
                if True:
                    try:
                        self.exec(fn['body'])
                    except CxxReturn as e:
                        ret = e.v
            elif ref.get('defaulted') and ref.get('k') != 'ctor':
                r = self.special(ref, this, args)
                if r is not NotImplemented:
                    ret = r
            self.drop_params(fn, env)
            self.ev_add('leave', fn_id=fn['fid'], callee=fn['sq'], ret=ret)
            return ret
        except CxxThrow as e:
            self.drop_params(fn, env)
            if ref.get('noexcept'):
                self.ev_add('terminate', callee=fn['sq'], exc=e.t)
                raise PathEnd('terminate')
            self.ev_add('leave', fn_id=fn['fid'], callee=fn['sq'], ret=None, exc=True)
            raise
        finally:
            self.frames.pop()
            self.curline = saveline

    def drop_params(self, fn, env):
        for prm in reversed(fn['params']):
            if not is_ref(prm['t']):
                p = env.get((fn['tu'], prm['d']))
                if p is not None and p[0][0] == 'local':
                    self.destroy(p, prm['t'])

    def new_local(self, n, t):
        self.nfresh += 1
        p = (('local', '%s#%d' % (n or '_', self.nfresh)), ())
        self.ctypes[p] = bare(t)
        return p

    def ctor_inits(self, fn, this, ref):
        ct = ref.get('cls', '')
        if this is not None:
            self.ctypes[this] = bare(ct)
        done = set()
        for ini in fn['inits']:
            self.curline = ini.get('l') or self.curline
            if ini.get('delegate'):
                self.init_place(this, ct, ini['e'])
                return
            if 'base' in ini:
                self.init_place(this, ini['base'], ini['e'], base=True)
                self.ctypes[this] = bare(ct)
                continue
            f = ini['field']
            done.add(f)
            ft = ini['ft']
            dp = (this[0], this[1] + (f,))
            if is_ref(ft):
                v = self.ev(ini['e'])
                self.mem[dp] = ('ptr', self.as_place(v, bare(ft)))
            else:
                self.init_place(dp, ft, ini['e'])
                v = self.mem.get(dp)
                self.note_write(dp, ft, v, init=True)

    def init_place(self, place, t, node, base=False):
        """initialise storage at place of type t from an initialiser expression"""
        if node is None:
            return
        n = node
        while n['k'] in ('Full',):
            n = n['e']
        if n['k'] == 'Construct':
            self.construct(place, n, t, base)
            return
        if n['k'] == 'InitList' and self.is_struct(t):
            self.init_list(place, t, n)
            return
        v = self.ev(n)
        self.store(place, self.rv(v, t), t, quiet=True)

    def init_list(self, place, t, n):
        fs = self.fields_of(t) or []
        items = n.get('a') or []
        tb = bare(t)
        self.ctypes[place] = tb
        if split_targs(tb)[0] == 'std::array' and len(items) == 1 and items[0] and items[0]['k'] == 'InitList':
            items = items[0].get('a') or []
        elif split_targs(tb)[0] == 'std::array' and len(items) == 1 and items[0] and items[0].get('t', '').endswith(']') and items[0]['k'] not in ('Str', 'StrLit'):
            items = []                      # all elements value-initialized
        for i, (f, ft) in enumerate(fs):
            dp = (place[0], place[1] + (f,))
            if i < len(items) and items[i] is not None:
                if is_ref(ft):
                    self.mem[dp] = ('ptr', self.as_place(self.ev(items[i]), bare(ft)))
                else:
                    self.init_place(dp, ft, items[i])
            else:
                if self.is_struct(ft):
                    self.default_init(dp, ft)
                else:
                    self.store(dp, self.models.default_value(self, ft), ft, quiet=True)

    def construct(self, place, n, t, base=False):
        ref = self.P.ref(n['f']) or {}
        ct = ref.get('cls') or t
        if not base:
            self.ctypes[place] = bare(ct)
        args = [self.ev(a) for a in n['a']]
        self.curline = n.get('l', self.curline)
        r = self.models.construct(self, ref, place, args, n)
        if r is not NotImplemented:
            return
        self.call_fid(n['f'], place, args, n)

    # ------------------------------------------------------------------ destruction
    def destroy(self, place, t):
        tb = bare(t)
        v = self.mem.get(place)
        if v is not None and v[0] == 'guard':
            if v[2]:
                for m in reversed(v[1]):
                    self.unlock(m)
            self.mem[place] = ('guard', v[1], False)
            return
        if tb == 'std::thread' and v is not None and v[0] == 'thread' and v[1] is not None:
            self.ev_add('thread_dtor', place=place, val=v)
        elif tb == 'std::jthread' and v is not None and v[0] == 'thread' and v[1] is not None:
            self.ev_add('join', place=place, val=v)
        elif tb.startswith('std::unique_ptr<') and v is not None and v[0] == 'ptr' and v[1][0][0] == 'heap':
            self.destroy(v[1], self.ctypes.get(v[1], ''))
        elif tb.startswith('std::shared_ptr<'):
            self.mem.pop(place, None)
        else:
            rec = self.P.recs.get(tb)
            if rec and rec.get('lib'):
                for m in rec.get('methods') or []:
                    mr = self.P.ref(m) or {}
                    if mr.get('k') == 'dtor':
                        fn = self.P.fns.get(m)
                        if fn is not None and fn.get('body') is not None and not mr.get('defaulted'):
                            self.call_body(fn, place, [], None)
                        break
                if place[0][0] in ('local', 'temp'):
                    for f, ft in self.fields_of(tb) or []:
                        if bare(ft).startswith('std::unique_lock') or bare(ft).startswith('std::lock_guard') or bare(ft).startswith('std::scoped_lock') or (self.P.recs.get(bare(ft)) or {}).get('lib'):
                            self.destroy((place[0], place[1] + (f,)), ft)

    # ------------------------------------------------------------------ statements
    def exec(self, n):
        if n is None:
            return
        k = n['k']
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisBroken('step limit in %s' % self.rootname)
        m = getattr(self, 'st_' + k, None)
        if m is not None:
            self.curline = n.get('l', self.curline)
            return m(n)
        # expression statement
        self.curline = n.get('l', self.curline)
        self.full(n)

    def full(self, n):
        self.temps.append([])
        try:
            return self.ev(n)
        finally:
            ts = self.temps.pop()
            for p, t in reversed(ts):
                self.destroy(p, t)

    def st_Block(self, n):
        self.scope(lambda: [self.exec(s) for s in n['s']])

    def scope(self, body):
        fr = self.frames[-1]
        saved = getattr(fr, 'env')
        self.scopes_push()
        try:
            body()
        finally:
            self.scopes_pop()

    _scopes = None

    def scopes_push(self):
        if self._scopes is None:
            self._scopes = []
        self._scopes.append([])

    def scopes_pop(self):
        vs = self._scopes.pop()
        et = sys.exc_info()[1]
        if isinstance(et, PathEnd):
            return
        for p, t in reversed(vs):
            self.destroy(p, t)

    def st_Nop(self, n):
        pass

    def st_Void(self, n):
        self.full(n['e'])

    def st_Decl(self, n):
        for v in n['v']:
            self.declare(v)

    def declare(self, v):
        fr = self.frames[-1]
        key = (fr.tu, v['d'])
        self.curline = v.get('l', self.curline)
        t = v['t']
        if v.get('static'):
            root = (('global', fr.fn['sq'] + '::' + v['n']), ())
            fr.env[key] = root
            self.ctypes[root] = bare(t)
            self.ev_add('staticlocal', place=root, t=t)
            return
        init = v.get('init')
        if is_ref(t):
            self.temps.append([])
            try:
                val = self.ev(init)
            finally:
                ts = self.temps.pop()
            pl = self.as_place(val, bare(t))
            keep = [x for x in ts if x[0] != pl]
            for p, tt in reversed(keep):
                self.destroy(p, tt)
            if pl[0][0] == 'temp' and self._scopes:
                self._scopes[-1].append((pl, t))
            fr.env[key] = pl
        else:
            p = self.new_local(v['n'], t)
            fr.env[key] = p
            if init is not None:
                self.temps.append([])
                try:
                    self.init_place(p, t, init)
                finally:
                    ts = self.temps.pop()
                    for q, tt in reversed(ts):
                        if q != p:
                            self.destroy(q, tt)
            else:
                if self.is_struct(t):
                    pass
                else:
                    self.mem[p] = ('uninit', p) if bare(t) in NUMT or bare(t).endswith('*') else self.models.default_value(self, t)
            self.ctypes[p] = bare(t)
            if self._scopes:
                self._scopes[-1].append((p, t))
        if v.get('bindings'):
            base = fr.env[key]
            bt = bare(t)
            fs = self.fields_of(bt)
            for i, b in enumerate(v['bindings']):
                bk = (fr.tu, b['d'])
                if fs and i < len(fs):
                    bp = (base[0], base[1] + (fs[i][0],))
                    if is_ref(fs[i][1]):
                        rv_ = self.mem.get(bp)
                        bp = rv_[1] if rv_ and rv_[0] == 'ptr' else (('deref', ('s', 'ref:' + show_place(bp))), ())
                    else:
                        self.ctypes.setdefault(bp, bare(fs[i][1]))
                else:
                    bp = (base[0], base[1] + ('#%d' % i,))
                    self.ctypes.setdefault(bp, bare(b['t']))
                fr.env[bk] = bp
                if 'hd' in b:
                    fr.env[(fr.tu, b['hd'])] = bp

    def st_If(self, n):
        def body():
            if n.get('init'):
                self.exec(n['init'])
            if n.get('haslive'):
                self.exec(n.get('live'))
                return
            if n.get('cv'):
                self.declare(n['cv'])
            c = self.cond(n['c'])
            if c:
                self.exec(n['a'])
            else:
                self.exec(n.get('b'))
        self.scope(body)

    def cond(self, c):
        """evaluate a condition expression and branch; short-circuit operators branch per operand"""
        self.temps.append([])
        try:
            return self.cond_(c)
        finally:
            ts = self.temps.pop()
            for p, t in reversed(ts):
                self.destroy(p, t)

    def cond_(self, c):
        while c['k'] in ('Full',):
            c = c['e']
        if c['k'] == 'Bin' and c['op'] in ('&&', '||'):
            a = self.cond_(c['lhs'])
            if c['op'] == '&&':
                return a and self.cond_(c['rhs'])
            return a or self.cond_(c['rhs'])
        if c['k'] == 'Un' and c['op'] == '!':
            return not self.cond_(c['e'])
        v = self.ev(c)
        return self.truth(v, c.get('t', ''))

    def st_Return(self, n):
        if n.get('e') is None:
            raise CxxReturn(('void',))
        fr = self.frames[-1]
        rt = fr.fn.get('ret', '')
        self.temps.append([])
        v = None
        try:
            v = self.ev(n['e'])
            if is_ref(rt):
                if v[0] != 'L':
                    v = ('L', self.as_place(v, bare(rt)))
            else:
                v = self.rv(v, rt)
                if v[0] == 'obj' and v[1][0][0] != 'temp':
                    p = self.new_temp(rt)
                    self.store(p, v, rt or v[2], quiet=True)
                    v = ('obj', p, bare(rt) if self.is_struct(rt) else v[2])
                if v[0] == 'guard':
                    for i, s in enumerate(self._scopes[-1] if self._scopes else []):
                        pass
                    # a guard returned by value moves out of the local
                    e = n['e']
                    self.guard_escape(v)
        finally:
            ts = self.temps.pop()
            for p, t in reversed(ts):
                if v is not None and v[0] == 'obj' and v[1] == p:
                    continue
                self.destroy(p, t)
        raise CxxReturn(v)

    def guard_escape(self, v):
        for p, x in list(self.mem.items()):
            if x == v and x[0] == 'guard' and x[2]:
                self.mem[p] = ('guard', x[1], False)

    def st_Break(self, n):
        raise CxxBreak()

    def st_Continue(self, n):
        raise CxxContinue()

    def st_Case(self, n):
        self.exec(n['sub'])

    def st_Default(self, n):
        self.exec(n['sub'])

    def st_Label(self, n):
        self.exec(n['sub'])

    def st_Switch(self, n):
        def body():
            if n.get('init'):
                self.exec(n['init'])
            if n.get('cv'):
                self.declare(n['cv'])
            v = self.rv(self.ev(n['c']), n['c'].get('t', ''))
            stmts = n['body']['s'] if n['body'] and n['body']['k'] == 'Block' else [n['body']]
            # flatten the labels
            flat = []
            for s in stmts:
                labels = []
                while s is not None and s['k'] in ('Case', 'Default'):
                    labels.append(('case', s.get('v')) if s['k'] == 'Case' else ('default', None))
                    s = s['sub']
                flat.append((labels, s))
            start = None
            for i, (labels, s) in enumerate(flat):
                vals = [int(val) for kind, val in labels if kind == 'case']
                if start is None and vals and self.case_hit(v, vals):
                    start = i
            if start is None:
                for i, (labels, s) in enumerate(flat):
                    if any(k2 == 'default' for k2, _ in labels):
                        start = i
            if start is None:
                return
            self.ev_add('switch', val=v, arm=start)
            try:
                for labels, s in flat[start:]:
                    self.exec(s)
            except CxxBreak:
                pass
        self.scope(body)

    def case_hit(self, v, vals):
        return any(self.branch(eq(v, C(x))) for x in vals)

    def st_Try(self, n):
        nlocks = len(self.locks)
        nfr = len(self.frames)
        try:
            self.exec(n['body'])
        except CxxThrow as e:
            for h in n['h']:
                ht = bare(h['t'])
                m = self.handler_matches(ht, e)
                if m is None:
                    m = bool(self.choose(2))
                if m:
                    self.ev_add('catch', t=h['t'], exc=e.t)

                    def body():
                        if h.get('v'):
                            fr = self.frames[-1]
                            p = self.new_local(h['v']['n'], h['t'])
                            fr.env[(fr.tu, h['v']['d'])] = p
                            self.mem[p] = ('s', 'exception')
                        self.catching.append(e)
                        try:
                            self.exec(h['body'])
                        finally:
                            self.catching.pop()
                    self.scope(body)
                    return
            raise

    catching = []

    def handler_matches(self, ht, e):
        if ht == '...':
            return True
        if e.t == '*':
            return None if not e.std else (True if ht == 'std::exception' else None)
        if ht == e.t:
            return True
        bases = {'std::runtime_error': 'std::exception', 'std::logic_error': 'std::exception', 'std::invalid_argument': 'std::logic_error',
                 'std::out_of_range': 'std::logic_error', 'std::domain_error': 'std::logic_error', 'std::length_error': 'std::logic_error',
                 'std::range_error': 'std::runtime_error', 'std::overflow_error': 'std::runtime_error', 'std::system_error': 'std::runtime_error',
                 'std::bad_alloc': 'std::exception', 'std::bad_function_call': 'std::exception', 'std::bad_optional_access': 'std::exception', 'std::bad_cast': 'std::exception',
                 'std::filesystem::filesystem_error': 'std::system_error', 'std::ios_base::failure': 'std::system_error'}
        t = e.t
        while t in bases:
            t = bases[t]
            if t == ht:
                return True
        rec = self.P.recs.get(e.t)
        seen = [e.t]
        while seen:
            x = seen.pop()
            r = self.P.recs.get(x)
            for b in (r or {}).get('bases') or []:
                if bare(b['t']) == ht:
                    return True
                seen.append(bare(b['t']))
        return False

    # ------------------------------------------------------------------ loops
    def st_While(self, n):
        def cond():
            if n.get('cv'):
                self.declare(n['cv'])
            return self.cond(n['c'])
        self.loop(n, cond, lambda: self.exec(n['body']), None)

    def st_Do(self, n):
        # first iteration, then a while loop
        try:
            self.exec(n['body'])
        except CxxContinue:
            pass
        except CxxBreak:
            return
        self.loop(n, lambda: self.cond(n['c']), lambda: self.exec(n['body']), None)

    def st_For(self, n):
        def body():
            if n.get('init'):
                self.exec(n['init'])

            def cond():
                if n.get('cv'):
                    self.declare(n['cv'])
                return True if n.get('c') is None else self.cond(n['c'])
            self.loop(n, cond, lambda: self.exec(n['body']), (lambda: self.full(n['inc'])) if n.get('inc') else None)
        self.scope(body)

    def _iter(self, cond, body, inc):
        """one iteration; returns 'exit' | 'next' | 'break'"""
        if not cond():
            return 'exit'
        try:
            body()
        except CxxContinue:
            pass
        except CxxBreak:
            return 'break'
        if inc:
            inc()
        return 'next'

    def loop(self, n, cond, body, inc, pre_havoc=None, meta=None):
        # 1. a loop whose condition stays decided is executed exactly (constant trip count)
        lid = (self.frames[-1].fn['sq'], n.get('l', 0))
        literal_true = n.get('c') is not None and n['k'] in ('While', 'For', 'Do') and (lambda c: c['k'] == 'Int' and c['v'] != '0')(n['c']) or (n['k'] == 'For' and n.get('c') is None)
        if not literal_true and n['k'] != 'RangeForSym':
            k = 0
            while k < self.unroll:
                d = self.const_cond(cond)
                if d is None:
                    break
                k += 1
                self.loopstack.append((lid, 'u%d' % k))
                try:
                    r = self._iter(cond, body, inc)
                finally:
                    self.loopstack.pop()
                if r in ('exit', 'break'):
                    return
            else:
                pass
        # 2. generic iteration
        mods, iters = self.probe_loop(cond, body, inc, lid)
        self.nfresh += 1
        lsym = '%s:%d' % (lid[0].split('::')[-1], lid[1])
        kk = None
        before = {p: self.mem.get(p) for p in mods[0]}
        if self.induct and mods[2]:
            self.trip(n, mods, lsym, cond, literal_true)
        else:
            self.apply_mods(mods, lsym)
        if pre_havoc:
            pre_havoc()
        self.ev_add('loop_head', loop=lid, meta=meta)
        for p in mods[0]:
            if self.shared(p) and p in self.mem:
                self.ev_add('loopmod', place=p, val=self.mem[p], loop=lid)
            elif p in self.mem:
                self.ev_add('loopvar', place=p, val=self.mem[p], before=before[p], loop=lid)
        self.loopstack.append((lid, 'g'))
        nlock = [x[0] for x in self.locks]
        try:
            if not cond():
                self.loopstack.pop()
                self.ev_add('loop_exit', loop=lid, iters=iters, meta=meta)
                return
            try:
                body()
            except CxxContinue:
                pass
            except CxxBreak:
                self.loopstack.pop()
                self.ev_add('loop_break', loop=lid, meta=meta)
                return
            if inc:
                inc()
            self.ev_add('loop_back', loop=lid, meta=meta, lockok=[x[0] for x in self.locks] == nlock)
            raise PathEnd('loopback')
        except BaseException:
            if self.loopstack and self.loopstack[-1] == (lid, 'g'):
                self.loopstack.pop()
            raise

    def trip(self, n, mods, lsym, cond, literal_true):
        """havoc at the head of a generic iteration, keeping what changes by a constant step as a function of the
        iteration number k; k is 0, or the loop condition held at k - 1"""
        k = ('s', 'iter:%s#%d' % (lsym, self.nfresh), 'int', True)
        snap = self.snapshot()
        if literal_true or n['k'] == 'RangeForSym':
            self.apply_mods(mods, lsym, k)
            return k
        first = self.choose(2) == 0
        if first:
            # k = 0: nothing has changed yet
            self.facts[eq(k, ZERO)] = True
            return k
        self.facts[lt(k, ONE)] = False
        self.apply_mods(mods, lsym + ':prev', sub(k, ONE))
        nev = len(self.events)
        try:
            r = cond()
        except (CxxThrow, PathEnd):
            r = True
        pure = not any(e['kind'] not in ('read', 'enter', 'leave', 'cop', 'it_deref') for e in self.events[nev:])
        if not r and pure:
            raise PathEnd('infeasible')
        f = list(self.facts.items())
        self.restore_but(snap)
        if pure:
            for t, v in f:
                self.facts[t] = v
        else:
            self.facts[lt(k, ONE)] = False
        self.apply_mods(mods, lsym, k)
        return k

    def restore_but(self, s):
        nf = self.nfresh
        self.restore(s)
        self.nfresh = nf

    def const_cond(self, cond):
        """value of the loop condition if it is decided without any choice, else None"""
        key = ('cc', self.ctxkey, tuple(self.dec[:self.didx]), len(self.events), self.nfresh, self.steps)
        if key in self.probes:
            return self.probes[key]
        r = self.const_cond_(cond, key)
        self.probes[key] = r
        return r

    def const_cond_(self, cond, key):
        saved_ctx = self.ctxkey
        self.ctxkey = key
        try:
            return self.const_cond__(cond)
        finally:
            self.ctxkey = saved_ctx

    def const_cond__(self, cond):
        snap = self.snapshot()
        sc = self._scopes
        self._scopes = [list(x) for x in sc] if sc else None
        saved = self.dec, self.didx, self.nopts
        self.dec, self.didx, self.nopts = [], 0, []
        try:
            try:
                r = cond()
            except (CxxThrow, PathEnd):
                return None
            if self.didx:
                return None
            return r
        finally:
            self.dec, self.didx, self.nopts = saved
            self.restore(snap)
            self._scopes = sc

    def probe_loop(self, cond, body, inc, lid):
        # the state here is a function of the decisions taken so far, so the result can be remembered
        key = (self.ctxkey, tuple(self.dec[:self.didx]), len(self.events), self.nfresh, lid)
        r = self.probes.get(key)
        if r is None:
            saved = self.ctxkey
            try:
                r = self.probe_loop_(cond, body, inc, lid, key)
            finally:
                self.ctxkey = saved
            self.probes[key] = r
        return r

    def probe_loop_(self, cond, body, inc, lid, key):
        """collect what an iteration may modify, to a fixpoint; and the facts that hold when an iteration completes"""
        snap = self.snapshot()
        sc = self._scopes
        mods = {}
        epoch_changed = False
        iters = []
        deltas = {}
        heap0 = {p[0] for p in snap[0] if p[0][0] == 'heap'}
        for rnd in range(4):
            self.restore(snap)
            iters = []
            deltas = {}
            before = set(mods)
            eb = epoch_changed
            self.ctxkey = (key, rnd)

            def once():
                nonlocal epoch_changed
                self.restore(snap)
                self._scopes = [list(x) for x in sc] if sc else None
                if mods or epoch_changed:
                    self.apply_mods((mods, epoch_changed, {}), 'probe')
                m0 = dict(self.mem)
                e0 = self.epoch
                f0 = len(self.facts)
                ev0 = len(self.events)
                try:
                    r = self._iter(cond, body, inc)
                except (CxxReturn, CxxThrow):
                    r = 'leave'
                except PathEnd as e:
                    r = 'leave' if e.why != 'loopback' else 'inner'
                if self.epoch != e0:
                    epoch_changed = True
                if r in ('next', 'inner'):
                    # only effects of iterations that come back to the head matter there
                    for p in set(m0) | set(self.mem):
                        a, b = m0.get(p), self.mem.get(p)
                        if a != b:
                            if a is None and p[0][0] in ('local', 'temp'):
                                continue
                            if p[0][0] == 'heap' and p[0] not in heap0:
                                continue    # created by the iteration itself
                            if a is None and b is not None and b == self.init_probe(p, b):
                                continue
                            mods[p] = self.ctypes.get(p, '')
                    if r == 'next' and self.induct:
                        for p in set(mods):
                            a, b = m0.get(p), self.mem.get(p)
                            deltas.setdefault(p, set()).add(self.step_of(a, b, snap))
                    if r == 'next':
                        iters.append((list(self.facts.items())[f0:], [e for e in self.events[ev0:]]))
                return r
            self.explore(once)
            if set(mods) == before and eb == epoch_changed:
                break
        self.restore(snap)
        self._scopes = sc
        self.ind = {p: next(iter(d)) for p, d in deltas.items() if len(d) == 1 and next(iter(d)) is not None and not (epoch_changed and self.shared(p))}
        return (mods, epoch_changed, self.ind), iters

    def step_of(self, a, b, snap):
        """the change of a location (or of a container's size) in one iteration, if it is the same in every iteration"""
        if a is None or b is None:
            return None
        if a == b:
            return ('v', ZERO)
        if numlike(a) and numlike(b):
            k, d = 'v', sub(b, a)
        elif b[0] == 'u' or a[0] == 'u':
            k, d = 'n', sub(self.models.size_of(b), self.models.size_of(a))
        else:
            return None
        n0, e0 = snap[6], snap[5]

        def inv(t):
            if not isinstance(t, tuple):
                return True
            if t and t[0] == 's':
                return all(int(x) <= n0 for x in re.findall(r'#(\d+)', t[1])) and all(int(x) <= e0 for x in re.findall(r'@(\d+)', t[1]))
            return all(inv(x) for x in t)
        return (k, d) if inv(d) else None

    def init_probe(self, p, b):
        # a first read of a still-symbolic cell only materialises it
        t = self.ctypes.get(p, '')
        nm = show_place(p)
        if b[0] == 's' and (b[1] == nm or b[1].startswith(nm + '@')):
            return b
        if b[0] == 'poly' and len(b[1]) == 1:
            (m, c), = b[1]
            if len(m) == 1 and m[0][0][0] == 's' and (m[0][0][1] == nm or m[0][0][1].startswith(nm + '@')):
                return b
        if b[0] == 'uninit':
            return b
        return None

    def apply_mods(self, mods, why, k=None):
        mods, ep, ind = mods
        old = dict(self.mem) if k is not None else {}
        self.apply_mods_(mods, ep, why)
        if k is None:
            return
        for p, (kind, d) in ind.items():
            a = old.get(p)
            if a is None:
                continue
            if kind == 'v' and numlike(a):
                self.mem[p] = add(a, mul(d, k))
            elif kind == 'n' and p in self.mem:
                self.facts[eq(self.models.size_of(self.mem[p]), add(self.models.size_of(a), mul(d, k)))] = True

    def apply_mods_(self, mods, ep, why):
        if ep:
            self.havoc_shared('loop')
        for p, t in mods.items():
            if p[0][0] in ('local', 'temp') and p not in self.mem and not any(q[0] == p[0] for q in self.mem):
                continue
            if self.shared(p) and ep and not self.stable(p):
                continue
            v = self.mem.get(p)
            if v is not None and v[0] == 'guard':
                continue
            self.havoc_place(p, why, t or self.ctypes.get(p, ''))

    def st_RangeFor(self, n):
        def body():
            if n.get('init'):
                self.exec(n['init'])
            rng = self.ev(n['range'])
            rt = bare(n['rt'])
            # constant initialiser lists / arrays: unroll
            if rng[0] == 'initlist' or (rng[0] == 'obj' and self.fields_of(rng[2]) and split_targs(rng[2])[0] == 'std::array'):
                items = rng[1] if rng[0] == 'initlist' else None
                if items is None:
                    items = [('L', (rng[1][0], rng[1][1] + (f,))) for f, ft in self.fields_of(rng[2])]
                for it in items:
                    try:
                        self.bind_loopvar(n['var'], it)
                        self.exec(n['body'])
                    except CxxContinue:
                        continue
                    except CxxBreak:
                        break
                return
            rp = self.as_place(rng, rt)
            fs = self.fields_of(self.ctypes.get(rp, rt) or rt)
            if fs is not None and split_targs(bare(self.ctypes.get(rp, rt) or rt))[0] == 'std::array':
                for f, ft in fs:
                    try:
                        self.bind_loopvar(n['var'], ('L', (rp[0], rp[1] + (f,))))
                        self.exec(n['body'])
                    except CxxContinue:
                        continue
                    except CxxBreak:
                        break
                return
            self.range_loop(n, rp, rt, lambda elem: (self.bind_loopvar(n['var'], elem), self.exec(n['body'])))
        self.scope(body)

    def range_loop(self, n, rp, rt, fn, what='for'):
        """generic iteration over the elements of the container at rp; fn(elem) runs the body"""
        self.note_read(rp, rt, method='iterate')
        ct = self.load(rp, rt, quiet=True)
        et = self.elem_type(rt)
        st = {}
        ser = n.get('l', 0)
        known = self.models.container_elems(self, rp, ct)
        if known is not None:
            if not known:
                self.ev_add('loop_exit', loop=(self.frames[-1].fn['sq'], n.get('l', 0)), iters=[], meta=('range', rp, ct))
            for e in known:
                try:
                    fn(e)
                except CxxContinue:
                    continue
                except CxxBreak:
                    return
            return

        def elem():
            p = (('elem', rp, ('iter', '%s@%s' % (what, ser), ct)), ())
            self.ctypes.setdefault(p, bare(et))
            return ('L', p)

        def cond():
            # more elements?
            self.nfresh += 1
            return self.choose(2) == 0
        node = {'k': 'RangeForSym', 'l': n.get('l', 0), 'c': None}

        def pre():
            self.ev_add('iterate', container=rp, cterm=ct)
        # an empty container is excluded from iterating
        if self.decide(self.models.empty_term(ct)) is True:
            self.ev_add('loop_exit', loop=(self.frames[-1].fn['sq'], n.get('l', 0)), iters=[], meta=('range', rp, ct))
            return

        def cond2():
            r = cond()
            if r:
                self.facts[self.models.empty_term(ct)] = False
            return r
        self.loop(node, cond2, lambda: fn(elem()), None, meta=('range', rp, ct))

    def bind_loopvar(self, v, elem):
        fr = self.frames[-1]
        key = (fr.tu, v['d'])
        t = v['t']
        if is_ref(t):
            fr.env[key] = self.as_place(elem, bare(t))
        else:
            p = self.new_local(v['n'], t)
            self.store(p, self.rv(elem, t), t, quiet=True)
            fr.env[key] = p
        if v.get('bindings'):
            base = fr.env[key]
            fs = self.fields_of(bare(t))
            for i, b in enumerate(v['bindings']):
                nm = fs[i][0] if fs and i < len(fs) else '#%d' % i
                bp = (base[0], base[1] + (nm,))
                self.ctypes.setdefault(bp, bare(fs[i][1]) if fs and i < len(fs) else '')
                fr.env[(fr.tu, b['d'])] = bp
                if 'hd' in b:
                    fr.env[(fr.tu, b['hd'])] = bp

    # ------------------------------------------------------------------ expressions
    def ev(self, n):
        k = n['k']
        m = getattr(self, 'ex_' + k, None)
        if m is None:
            raise AnalysisBroken('unsupported construct %s (%s) at %s:%s' % (k, n.get('what'), self.frames[-1].fn['file'] if self.frames else '?', n.get('l')))
        return m(n)

    def lv(self, n):
        v = self.ev(n)
        return self.as_place(v, n.get('t', ''))

    def ex_Full(self, n):
        return self.ev(n['e'])

    def ex_Mat(self, n):
        t = n['t']
        e = n['e']
        p = self.new_temp(t)
        self.init_place(p, t, e)
        self.ctypes[p] = bare(t)
        if self.temps:
            self.temps[-1].append((p, t))
        return ('L', p)

    def ex_Load(self, n):
        p = self.ev(n['e'])
        return self.rv(p, n['e'].get('t', n['t']))

    def ex_Int(self, n):
        return C(int(n['v']))

    def ex_Float(self, n):
        try:
            return C(Fr(n['v']))
        except ValueError:
            return ('s', 'float:' + n['v'])

    def ex_Str(self, n):
        return ('str', n['v'])

    def ex_Null(self, n):
        return NULL

    def ex_Zero(self, n):
        return self.zero_of(n['t'])

    def zero_of(self, t):
        tb = bare(t)
        if tb in NUMT:
            return ZERO
        if tb.endswith('*'):
            return NULL
        if self.is_struct(tb):
            p = self.new_temp(tb)
            self.zero_init(p, tb)
            return ('obj', p, tb)
        return self.models.default_value(self, tb)

    def zero_init(self, place, t):
        for f, ft in self.fields_of(t) or []:
            dp = (place[0], place[1] + (f,))
            if self.is_struct(ft):
                self.zero_init(dp, ft)
            else:
                v = self.zero_of(ft)
                self.store(dp, v, ft, quiet=True)

    def ex_Enum(self, n):
        return C(int(n['v']))

    def ex_This(self, n):
        return ('ptr', self.frames[-1].this)

    def ex_Opaque(self, n):
        for c in n.get('ch') or []:
            self.ev(c)
        return self.fresh('opaque:' + str(n.get('what')), n.get('t', ''))

    def ex_Var(self, n):
        fr = self.frames[-1]
        if 'cv' in n:
            return C(int(n['cv']))
        key = (fr.tu, n['d'])
        p = fr.env.get(key)
        if p is None and n.get('global'):
            root = (('global', n.get('qn') or n['n']), ())
            self.ctypes.setdefault(root, bare(n['t']))
            g = self.P.globals.get((fr.tu, n['d']))
            if g is not None and g.get('const') and g.get('init') and root not in self.mem:
                self.mem[root] = None
                del self.mem[root]
                try:
                    v = self.rv(self.ev(g['init']), n['t'])
                    self.mem[root] = v
                except AnalysisBroken:
                    pass
            return ('L', root)
        if p is None:
            # a variable of an enclosing function that we did not see being bound (closure analysed as a root)
            root = (('global', 'captured:' + n['n']), ())
            self.ctypes.setdefault(root, bare(n['t']))
            return ('L', root)
        return ('L', p)

    def ex_FnRef(self, n):
        return ('fnptr', n['f'])

    def ex_MemFn(self, n):
        o = self.ev(n['o'])
        pl = self.deref(self.rv(o)) if n.get('arrow') else self.as_place(o)
        return ('memfn', n['f'], pl)

    def ex_Field(self, n):
        o = self.ev(n['o'])
        ot = n['o'].get('t', '')
        if n.get('arrow'):
            base = self.deref(self.rv(o, ot), n.get('cls', ''))
        else:
            base = self.as_place(o, ot)
        v = self.mem.get(base)
        if v is not None and v[0] == 'agg' and not n.get('lv'):
            pass
        self.ctypes.setdefault(base, bare(n.get('cls', '')))
        p = (base[0], base[1] + (n['n'],))
        ft = self.field_type(n.get('cls', ''), n['n']) or n['t']
        if is_ref(ft):
            r = self.mem.get(p)
            if r is not None and r[0] == 'ptr':
                return ('L', r[1])
            q = (('deref', ('s', 'ref:' + show_place(p))), ())
            self.ctypes.setdefault(q, bare(ft))
            return ('L', q)
        self.ctypes.setdefault(p, bare(ft))
        return ('L', p)

    def ex_Index(self, n):
        o = self.ev(n['o'])
        i = self.rv(self.ev(n['i']), n['i'].get('t', ''))
        at = n.get('at', '')
        if at.rstrip().endswith('*'):
            v = self.rv(o, at)
            if v[0] == 'ptr':
                base = v[1]
            elif v[0] == 'str':
                if is_c(i):
                    return C(ord(v[1][i[1]]) if i[1] < len(v[1]) else 0)
                self.ev_add('index', size=C(len(v[1]) + 1), index=i, obj=None)
                return ('u', 'charat', v, i)
            elif self.item_of(v, i) is not None:
                return self.item_of(v, i)
            else:
                base = (('deref', v), ())
        else:
            base = self.as_place(o, at)
            bv = self.mem.get(base)
            import re
            m = re.search(r'\[(\d+)\]\s*$', bare(at))
            if m:
                self.ev_add('index', size=C(int(m.group(1))), index=i, obj=base)
            if bv is not None and bv[0] == 'str':
                if is_c(i):
                    return ('L', self.tmp_of(C(ord(bv[1][i[1]]) if i[1] < len(bv[1]) else 0), n['t']))
                return ('L', self.tmp_of(('u', 'charat', bv, i), n['t']))
        p = (base[0], base[1] + (('ix', i),))
        if is_c(i):
            p = (base[0], base[1] + ('#%d' % i[1],))
        self.ctypes.setdefault(p, bare(n['t']))
        if p not in self.mem and base in self.mem and not is_c(i):
            self.mem[p] = ('u', 'at', self.mem[base], i)
        return ('L', p)

    def item_of(self, v, i):
        """element i behind a pointer into an array known by its items"""
        if v[0] == 'u' and v[1] == 'ptr+' and v[2][0] == 'initlist':
            v, i = v[2], add(v[3], i)
        if v[0] == 'initlist' and is_c(i) and 0 <= i[1] < len(v[1]):
            return v[1][int(i[1])]
        return None

    def tmp_of(self, v, t):
        p = self.new_temp(t)
        self.store(p, v, t, quiet=True)
        return p

    def ex_Upcast(self, n):
        return self.ev(n['e'])

    ex_Downcast = ex_Upcast

    def ex_Dyncast(self, n):
        v = self.ev(n['e'])
        v = self.rv(v)
        if self.choose(2):
            return NULL
        return v

    def ex_Void(self, n):
        self.ev(n['e'])
        return ('void',)

    def ex_Cast(self, n):
        v = self.ev(n['e'])
        ck = n['ck']
        t = bare(n['t'])
        if ck in ('IntegralCast', 'BooleanToSignedIntegral'):
            v = self.rv(v, n['ft'])
            return self.int_cast(v, t, bare(n['ft']))
        if ck == 'IntegralToFloating' or ck == 'FloatingCast':
            return self.rv(v, n['ft'])
        if ck == 'FloatingToIntegral':
            return trunc_t(self.rv(v, n['ft']))
        if ck in ('IntegralToBoolean', 'PointerToBoolean', 'FloatingToBoolean', 'MemberPointerToBoolean'):
            return self.boolterm(self.rv(v, n['ft']), n['ft'])
        if ck in ('BitCast', 'LValueBitCast', 'ReinterpretMemberPointer'):
            if v[0] == 'L' and n.get('lv'):
                return v
            v = self.rv(v, n['ft'])
            if v[0] == 'ptr' and n['t'] != n['ft'] and n.get('explicit'):
                return ('ptr', (v[1][0], v[1][1] + ('as:' + n['t'],)))
            return v
        if ck in ('PointerToIntegral', 'IntegralToPointer', 'ToUnion', 'Dependent'):
            return self.rv(v, n['ft'])
        if ck in ('BuiltinFnToFnPtr', 'UserDefinedConversion', 'AtomicToNonAtomic', 'NonAtomicToAtomic'):
            return v
        return self.rv(v, n['ft'])

    def int_cast(self, v, t, ft):
        if t not in INTS:
            return v
        bits, signed = INTS[t]
        if t == 'bool':
            return self.boolterm(v, ft)
        if v[0] in ('lt0', 'eq0', 'eq', 'not'):
            return v
        if is_c(v):
            x = int(v[1]) & ((1 << bits) - 1)
            if signed and x >> (bits - 1):
                x -= 1 << bits
            return C(x)
        if ft in INTS:
            fb, fs = INTS[ft]
            if bits >= fb:
                return v
            return ('u', 'narrow', C(bits), v) if not self.fits(v, bits, signed) else v
        return v

    def fits(self, v, bits, signed):
        """value range known to fit (from the mask / shift structure)"""
        m = self.models.max_unsigned(v)
        return m is not None and m < (1 << (bits - (1 if signed else 0)))

    def ex_Un(self, n):
        op = n['op']
        if op == '&':
            e = n['e']
            while e['k'] == 'Full':
                e = e['e']
            if e['k'] == 'FnRef':
                return ('fnptr', e['f'])
            return ('ptr', self.lv(n['e']))
        if op == '*':
            v = self.rv(self.ev(n['e']), n['e'].get('t', ''))
            if self.item_of(v, ZERO) is not None:
                return self.item_of(v, ZERO)
            if v[0] == 'fnptr':
                return v
            return ('L', self.deref(v, n['t']))
        if op == '!':
            v = self.rv(self.ev(n['e']), n['e'].get('t', ''))
            return lnot(self.boolterm(v, n['e'].get('t', '')))
        if op in ('++', '--'):
            p = self.lv(n['e'])
            t = n['e'].get('t', '')
            old = self.load(p, t)
            new = add(old, ONE if op == '++' else C(-1)) if not nonnum(old) else ('u', op, old)
            self.store(p, new, t)
            if self.interesting(p):
                self.events[-1]['rmw'] = op
            if n.get('post'):
                return old
            return ('L', p) if n.get('lv') else new
        v = self.rv(self.ev(n['e']), n['e'].get('t', ''))
        if op == '-':
            if v[0] == 'nonfin':
                return ('nonfin', {'inf': '-inf', '-inf': 'inf'}.get(v[1], v[1]))
            return neg(v)
        if op == '+':
            return v
        if op == '~':
            if is_c(v):
                t = bare(n['t'])
                bits, s = INTS.get(t, (32, True))
                return C(~int(v[1])) if s else C((~int(v[1])) & ((1 << bits) - 1))
            return ('u', '~', v)
        return ('u', op, v)

    def binop(self, op, a, b, t, at='', bt=''):
        if op == ',':
            return b
        if a[0] == 'it' or b[0] == 'it':
            r = self.models.it_binop(self, op, a, b)
            if r is not NotImplemented:
                return r
        if a[0] == 'nonfin' or b[0] == 'nonfin':
            return self.nonfin_op(op, a, b)
        if self.inexact and op in '+-*' and not at.endswith('*') and not (is_c(a) and is_c(b)):
            return self.fresh('inexact')    # may wrap around or be rounded
        if op == '+':
            if at.endswith('*') or bt.endswith('*'):
                pp, off = (a, b) if at.endswith('*') else (b, a)
                return self.ptr_add(pp, off)
            return add(a, b)
        if op == '-':
            if at.endswith('*') and not bt.endswith('*'):
                return self.ptr_add(a, neg(b))
            return sub(a, b)
        if op == '*':
            return mul(a, b)
        if op == '/':
            self.ev_add('div', divisor=b, t=t)
            if bare(t) in FLOATS:
                if self.nonfinite and self.branch(eq(b, ZERO)):
                    # x / 0.0: not a number, or an infinity of either sign
                    if self.branch(eq(a, ZERO)):
                        return ('nonfin', 'nan')
                    return ('nonfin', 'inf' if self.choose(2) else '-inf')
                return div_real(a, b)
            if is_c(a) and is_c(b) and b[1]:
                q = abs(a[1]) // abs(b[1])
                return C(q if (a[1] < 0) == (b[1] < 0) else -q)
            return trunc_t(div_real(a, b))
        if op == '%':
            if is_c(a) and is_c(b) and b[1]:
                r = abs(a[1]) % abs(b[1])
                return C(r if a[1] >= 0 else -r)
            return sub(a, mul(b, trunc_t(div_real(a, b))))
        if op == '<':
            return lt(a, b)
        if op == '>':
            return lt(b, a)
        if op == '<=':
            return le(a, b)
        if op == '>=':
            return le(b, a)
        if op in ('==', '!=') and self.maptheory and a[0] in BOOLTERMS and b[0] in BOOLTERMS:
            b = b if self.branch(a) else lnot(b)
            return b if op == '==' else lnot(b)
        if op == '==':
            return eq(a, b)
        if op == '!=':
            return lnot(eq(a, b))
        if op == '<=>':
            return ('cmp3', a, b)
        if op in ('&', '|', '^', '<<', '>>'):
            return self.models.bitop(op, a, b, t)
        return ('u', op, a, b)

    def nonfin_op(self, op, a, b):
        """arithmetic with values that are not finite"""
        ka = a[1] if a[0] == 'nonfin' else None
        kb = b[1] if b[0] == 'nonfin' else None
        if op in ('<', '>', '<=', '>=', '==', '!='):
            if 'nan' in (ka, kb):
                return C(1 if op == '!=' else 0)
            va, vb = ({'inf': 1, '-inf': -1, None: 0}[k] for k in (ka, kb))
            return C(1 if {'<': va < vb, '>': va > vb, '<=': va <= vb, '>=': va >= vb, '==': va == vb, '!=': va != vb}[op] else 0)
        if 'nan' in (ka, kb):
            return ('nonfin', 'nan')
        flip = {'inf': '-inf', '-inf': 'inf'}
        if op in ('+', '-'):
            if kb and op == '-':
                kb = flip[kb]
            if ka and kb and ka != kb:
                return ('nonfin', 'nan')
            return ('nonfin', ka or kb)
        if op == '*':
            if ka and kb:
                return ('nonfin', 'inf' if ka == kb else '-inf')
            o = b if ka else a
            if self.branch(eq(o, ZERO)):
                return ('nonfin', 'nan')
            k = ka or kb
            return ('nonfin', flip[k] if self.branch(lt(o, ZERO)) else k)
        if op == '/':
            if ka and kb:
                return ('nonfin', 'nan')
            if kb:
                return ZERO
            return ('nonfin', flip[ka] if self.branch(lt(b, ZERO)) else ka)
        return ('u', op, a, b)

    def ptr_add(self, p, off):
        if off == ZERO:
            return p
        if p[0] == 'ptr':
            root, path = p[1]
            if path and isinstance(path[-1], tuple) and path[-1][0] == 'off':
                o = add(path[-1][1], off)
                return ('ptr', (root, path[:-1] + ((('off', o),) if o != ZERO else ())))
            return ('ptr', (root, path + (('off', off),)))
        if p[0] == 'u' and p[1] == 'ptr+':
            return ('u', 'ptr+', p[2], add(p[3], off))
        return ('u', 'ptr+', p, off)

    def ex_Bin(self, n):
        op = n['op']
        if op in ('&&', '||'):
            r = self.cond_(n)
            return C(1 if r else 0)
        lt_, rt_ = n['lhs'].get('t', ''), n['rhs'].get('t', '')
        a = self.rv(self.ev(n['lhs']), lt_)
        b = self.rv(self.ev(n['rhs']), rt_) if op != ',' else self.ev(n['rhs'])
        return self.binop(op, a, b, n['t'], lt_, rt_)

    def ex_Assign(self, n):
        t = n['lhs'].get('t', '')
        v = self.rv(self.ev(n['rhs']), n['rhs'].get('t', ''))
        p = self.lv(n['lhs'])
        self.store(p, v, t)
        return ('L', p)

    def ex_CAssign(self, n):
        t = n['lhs'].get('t', '')
        v = self.rv(self.ev(n['rhs']), n['rhs'].get('t', ''))
        p = self.lv(n['lhs'])
        old = self.load(p, t)
        if t.endswith('*'):
            new = self.binop(n['op'], old, v, t, t, n['rhs'].get('t', ''))
        else:
            new = self.binop(n['op'], old, v, n.get('ct') or t)
            if bare(t) in INTS and bare(n.get('ct') or t) in INTS:
                new = self.int_cast(new, bare(t), bare(n.get('ct') or t))
            elif bare(t) in INTS and bare(n.get('ct') or t) in FLOATS:
                new = trunc_t(new)
        self.store(p, new, t)
        if self.interesting(p):
            self.events[-1]['rmw'] = n['op']
        return ('L', p)

    def ex_Cond(self, n):
        if self.cond_(n['c']):
            return self.ev(n['a'])
        return self.ev(n['b'])

    def ex_Construct(self, n):
        p = self.new_temp(n['t'])
        self.construct(p, n, n['t'])
        if self.is_struct(n['t']):
            return ('obj', p, bare(n['t']))
        v = self.mem.get(p)
        if v is None:
            v = self.init_value((('ret', p[0][1]), ()), n['t'])
        if v[0] == 'guard' and self.temps:
            # a guard that stays a temporary dies at the end of the full expression
            pass
        return v

    def ex_InitList(self, n):
        t = bare(n['t'])
        items = n.get('a') or []
        if self.is_struct(t):
            p = self.new_temp(t)
            self.init_list(p, t, n)
            return ('obj', p, t)
        if t.endswith(']') or t.startswith('std::initializer_list'):
            vals = []
            for i in items:
                if i is None:
                    continue
                v = self.ev(i)
                if v[0] == 'obj':
                    v = ('L', v[1])
                vals.append(v if v[0] == 'L' else v)
            return ('initlist', tuple(vals))
        if len(items) == 1 and items[0]:
            return self.ev(items[0])
        if not items:
            return self.zero_of(t)
        return ('u', 'initlist:' + t) + tuple(self.term_of(self.ev(i)) for i in items if i)

    def ex_StdInitList(self, n):
        e = n['e']
        while e['k'] in ('Mat', 'Full'):
            e = e['e']
        return self.ev(e)

    def ex_ArrayInitLoop(self, n):
        return self.rv(self.ev(n['e']), n['t'])

    def ex_Lambda(self, n):
        fr = self.frames[-1]
        self.nfresh += 1
        cid = self.nfresh
        env = {}
        this = None
        caps = []
        for c in n['caps']:
            if c.get('this'):
                this = fr.this
                caps.append(('this', 'this', None))
                continue
            key = (fr.tu, c['d'])
            if c.get('byref'):
                p = self.lv(c['init']) if c.get('init') else fr.env.get(key)
                env[key] = p
                caps.append((c['n'], 'ref', p))
            else:
                dup = sum(1 for nm, how, q in caps if nm == c['n'])
                p = (('local', 'cap:%s%s#%d' % (c['n'], '.%d' % (dup + 1) if dup else '', cid)), ())
                self.ctypes[p] = bare(c['t'])
                if c.get('init') is not None:
                    if is_ref(c['t']) and c.get('initcap'):
                        env[key] = self.as_place(self.ev(c['init']), bare(c['t']))
                        caps.append((c['n'], 'ref', env[key]))
                        continue
                    self.init_place(p, c['t'], c['init'])
                env[key] = p
                caps.append((c['n'], 'copy', p))
        if this is None and fr.this is not None and not any(c.get('this') for c in n['caps']):
            this = None
        f = n.get('f')
        cl = ('closure', f or ('generic',) + tuple(n.get('gf') or []), '%s:%d' % (fr.fn['sq'], n['l']), cid)
        self.closures[cl] = (f, n.get('gf') or [], env, this, caps, fr.tu, dict(fr.env))
        return cl

    def call_value(self, f, args, node=None):
        """call a callable value"""
        if f[0] == 'L':
            f = self.rv(f)
        if f[0] == 'obj':
            t = f[2]
            rec = self.P.recs.get(bare(t)) or {}
            for m in rec.get('methods') or []:
                mr = self.P.ref(m) or {}
                if mr.get('n') == 'operator()':
                    return self.call_fid(m, f[1], args, node)
        if f[0] == 'closure':
            info = self.closures.get(f)
            if info:
                fid, gf, env, this, caps, tu, oenv = info
                cand = [fid] if fid else list(gf)
                for c in cand:
                    fn = self.P.fns.get(c)
                    if fn is not None and len(fn['params']) == len(args):
                        e = dict(env)
                        return self.call_body(fn, this, args, node, env0=e)
                for c in cand:
                    fn = self.P.fns.get(c)
                    if fn is not None:
                        return self.call_body(fn, this, args, node, env0=dict(env))
        if f[0] == 'fnptr':
            ref = self.P.ref(f[1]) or {}
            if ref.get('cls') and not ref.get('static'):
                o = args[0]
                p = o[1] if o[0] == 'L' and not self.ptrish(o) else self.deref(self.rv(o))
                return self.call_fid(f[1], p, args[1:], node, virt=True)
            return self.call_fid(f[1], None, args, node)
        if f[0] == 'memfn':
            return self.call_fid(f[1], f[2], args, node, virt=True)
        if f[0] == 'bind':
            return self.call_value(f[1], list(f[2]) if not f[3:] else list(f[2]) + list(args), node)
        if f[0] == 'notfn':
            r = self.call_value(f[1], args, node)
            return lnot(self.boolterm(self.rv(r), 'bool'))
        if f[0] == 'objfn':
            return self.call_value(('obj', f[1], f[2]), args, node)
        if f[0] == 'ptask':
            return self.models.ptask_run(self, f, args, node)
        self.ev_add('invoke', callee=f, args=[self.term_of(a) for a in args], argp=args)
        if self.throws(self, {'sq': '<callable>', 'n': '<callable>'}):
            if self.choose(2):
                raise CxxThrow('*', ('s', 'exc:callable'), std=False)
        t = (node or {}).get('t', '')
        if not t or bare(t) == 'void':
            return ('void',)
        return self.ret_fresh({'ret': t}, 'result')

    def ptrish(self, o):
        t = self.ctypes.get(o[1], '')
        v = self.mem.get(o[1])
        return t.endswith('*') or 'unique_ptr' in t.split('<')[0] or 'shared_ptr' in t.split('<')[0] or (v is not None and v[0] == 'ptr')

    def ex_Call(self, n):
        if 'f' not in n:
            fe = n.get('fe')
            f = self.ev(fe)
            args = [self.ev(a) for a in n['a']]
            self.curline = n.get('l', self.curline)
            return self.call_value(self.rv(f, fe.get('t', '')), args, n)
        ref = self.P.ref(n['f']) or {}
        this = None
        if 'o' in n and n['o'] is not None:
            o = self.ev(n['o'])
            ot = n['o'].get('t', '')
            if n.get('arrow'):
                this = self.deref(self.rv(o, ot), ref.get('cls', ''))
            else:
                this = self.as_place(o, ot)
        args = [self.ev(a) for a in n['a']]
        self.curline = n.get('l', self.curline)
        if ref.get('lambda') and ref.get('n') == 'operator()' and this is not None:
            v = self.load(this, self.ctypes.get(this, ''), quiet=True)
            if v[0] == 'closure':
                return self.call_value(v, args, n)
        return self.call_fid(n['f'], this, args, n, virt=bool(n.get('virt')))

    def ex_Throw(self, n):
        if n.get('e') is None:
            if self.catching:
                e = self.catching[-1]
                self.ev_add('throw', t=e.t, re=True)
                raise CxxThrow(e.t, e.v, e.std)
            raise CxxThrow('*', ('s', 'rethrow'))
        t = bare(n['e'].get('t', ''))
        v = self.ev(n['e'])
        self.ev_add('throw', t=t, val=v)
        raise CxxThrow(t, v)

    def ex_New(self, n):
        self.nfresh += 1
        p = (('heap', self.nfresh), ())
        t = n['at']
        self.ctypes[p] = bare(t)
        if n.get('init'):
            self.init_place(p, t, n['init'])
        self.ev_add('new', place=p, t=t)
        return ('ptr', p)

    def ex_Delete(self, n):
        v = self.rv(self.ev(n['e']))
        self.ev_add('delete', val=v)
        return ('void',)

    def ex_Typeid(self, n):
        if 'of' in n:
            return ('L', (('typeid', n['of']), ()))
        self.ev(n['e'])
        return ('L', (('typeid', self.fresh('dyntype')), ()))
